import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
core="packages/stylist-core/src/"; st="packages/stylist/src/"; mac="packages/stylist-macros/src/"
p("C01","Parsing a style sheet preserves its rules, declarations and order",
 "Every style text written in the supported CSS dialect (top-level declarations, blocks with selector lists, @media/@supports/@container at top level or nested in blocks, @keyframes) is accepted, and the resulting sheet contains exactly the at-rules, selectors, property names and values that were written, each once, under the same at-rules and selectors, in source order. White space and comments between tokens, and an omitted or present final semicolon inside a block, do not change the result. Quoted strings, escapes and bracketed selector arguments are opaque: punctuation inside them never splits a selector, value or declaration.",
 ["inputs"],"for all style sheets of the dialect, all layouts (white space, comments, optional semicolons) of each",
 "The parser tests check a few dozen hand-written sheets against hand-written trees; no test composes features (strings next to at-rules, pseudo selectors after top-level declarations, comments at every gap).",
 [core+"parser.rs",core+"ast/sheet.rs"],
 [("nom grammar",core+"parser.rs Parser::sheet .. Parser::attribute"),("Sheet: FromStr",core+"ast/sheet.rs feat_parser")],
 ["Sheet::from_str(text) and the public AST it returns","Style::new(text).get_style_str()"])
p("C02","Parsing is total: any text is parsed faithfully or rejected, never mangled",
 "For every string (nested to a bounded depth), parsing terminates with a sheet or an error and never panics, and the same string always gives the same answer. When it is accepted, every character of the text other than white space, comments, and separating semicolons and commas is present in the sheet in the original order, and nothing else is. Text whose braces do not balance, or which ends inside a string, comment, block or declaration, is rejected.",
 ["inputs"],"for all strings, in particular mutated, truncated and spliced style sheets",
 "Two unit tests feed one malformed string each; totality and faithfulness quantify over all strings.",
 [core+"parser.rs",core+"error.rs",core+"ast/sheet.rs"],
 [("Parser::parse error mapping",core+"parser.rs Parser::parse"),("many0 no-progress check turns trailing garbage into an error",core+"parser.rs Parser::sheet")],
 ["Sheet::from_str(text): Ok/Err/panic, and the AST"])
p("C03","Scoped styles only ever match inside the scope of their class",
 "In a style rendered for a class, every emitted selector is scoped: `&` and `:root` (outside quoted strings) are each replaced by `.class`; a selector with neither is prefixed by `.class`, without a space when it begins with a pseudo selector (`:`) and with a descendant space otherwise; declarations outside any block apply to `.class` itself. This holds for each selector of a selector list and under any at-rule, and the rest of the selector text, including quoted strings and bracketed arguments, is kept unchanged.",
 ["inputs"],"for all sheets, all selectors, all class names and all ways a selector is split into fragments",
 "Four unit tests check one selector each; scoping must hold for every selector a user can write, otherwise a component's style leaks into the page.",
 [core+"ast/selector.rs",core+"ast/block.rs",core+"ast/context.rs",st+"manager/mod.rs"],
 [("selector rewriting",core+"ast/selector.rs write_style"),("dangling declarations",core+"ast/context.rs with_block_condition"),("selector list",core+"ast/block.rs cond_str")],
 ["Style::get_style_str(), ToStyleStr::to_style_str(Some(class))"])
p("C04","Global styles are emitted unscoped",
 "A global style contains no generated class: each selector is emitted as written except that `&` outside quoted strings becomes `:root`, and declarations outside any block apply to `:root`. Apart from the selectors, the global and the scoped rendering of the same sheet contain the same declarations under the same at-rules in the same order.",
 ["inputs"],"for all sheets",
 "Two unit tests compare two sheets; no test uses `&`, `:root` or nested at-rules globally.",
 [core+"ast/selector.rs",core+"ast/context.rs",st+"global_style.rs"],
 [("global branch of selector rewriting",core+"ast/selector.rs write_style"),("fallback selector",core+"ast/context.rs with_block_condition"),("GlobalStyle::create_impl",st+"global_style.rs")],
 ["GlobalStyle::get_style_str(), ToStyleStr::to_style_str(None)"])
p("C05","Rendering keeps every declaration, its order and its enclosing at-rules",
 "For every sheet, however its at-rules and blocks are nested, the rendered CSS contains exactly the sheet's declarations, each once and in order, each inside exactly its enclosing at-rules (outermost first) and its own selector list. @keyframes are always emitted, even when empty, and neither they nor their frame selectors are scoped. Blocks and rules without declarations contribute nothing, and open and close braces always match.",
 ["inputs"],"for all sheets (parsed or built through the public AST), any nesting depth and any sibling order",
 "Unit tests compare one or two nesting patterns; the lazy open/close logic depends on the whole sequence of siblings and ancestors.",
 [core+"ast/context.rs",core+"ast/rule.rs",core+"ast/block.rs",core+"ast/style_attr.rs"],
 [("lazy open/close",core+"ast/context.rs start/finish/close_until_common_parent"),("keyframes always printed",core+"ast/rule.rs")],
 ["to_style_str() output re-read by an independent CSS reader"])
p("C06","Rendered CSS is well-formed and reads back as the same style",
 "The CSS rendered from any accepted sheet, scoped or global, is accepted again by the library's own parser, and the sheet obtained renders (unscoped) to the same rules and declarations; rendering a sheet that was read back any number of times changes nothing further.",
 ["inputs"],"for all accepted sheets and class names",
 "Debug builds re-parse what they render at run time, so a rendered style that does not read back is a panic in the user's application; tests only render a handful of sheets.",
 [core+"parser.rs",core+"ast",st+"manager/mod.rs"],
 [("debug re-parse",st+"manager/mod.rs get_or_register_style"),("parser",core+"parser.rs")],
 ["to_style_str() then Sheet::from_str() then to_style_str(None)"])
p("C07","A style registry returns one class per distinct style, and only then",
 "Within one manager, creating a style whose sheet, class prefix and kind (scoped or global) equal those of a registered style returns that same style (same id and text); differing in any of the three yields a different id. A style stays registered although all its handles are dropped, until it is unregistered; creating it afterwards yields a fresh id. Handles keep their id and text whatever happens to the registry or the manager, and managers never share registrations.",
 ["histories"],"for all interleavings of create, clone, drop, unregister and manager create/drop over several managers, prefixes, kinds and sheets",
 "Registry tests check three two-step sequences on the default manager.",
 [st+"manager/mod.rs",st+"manager/registry.rs",st+"manager/key.rs",st+"style.rs",st+"global_style.rs"],
 [("StyleKey equality",st+"manager/key.rs"),("get_or_register_style",st+"manager/mod.rs"),("registry map",st+"manager/registry.rs")],
 ["Style::get_class_name/get_style_str/id/unregister, GlobalStyle likewise, over StyleManager instances"],
 [("registry","map from (kind, prefix, sheet) to the registered style",st+"manager/registry.rs styles")])
p("C08","Generated class names are valid, prefixed and never repeated",
 "Every newly registered style, in any manager, thread or kind, gets an id that no other registration in the process has, whether the random or the counter id source is compiled in. Scoped ids are `<prefix>-<suffix>` and global ids `<prefix>-global-<suffix>` with the requested class prefix (or the manager's), and for a prefix that is a CSS identifier the whole id is one CSS identifier, usable unescaped as a class selector and an HTML attribute.",
 ["histories","schedules","configurations"],"for all numbers of registrations over any managers, prefixes, kinds and threads, with and without the `random` feature",
 "One unit test draws six counter values; uniqueness is over the whole history of a process and over threads, and the random source has no test.",
 [st+"manager/key.rs",st+"utils.rs"],
 [("get_entropy",st+"utils.rs"),("StyleId::new_scoped/new_global",st+"manager/key.rs")],
 ["Style::get_class_name(), GlobalStyle::id()"])
p("C09","Server-side capture records every style once and emits safe markup",
 "A manager with a static writer captures each style it registers exactly once, in registration order, with its id, and nothing for re-created (already registered) styles; what is captured survives dropping handles and the manager. The emitted markup consists of one `<style data-style=\"id\">` element per captured style, whose text, as a browser reads it, is that style's CSS; no style text, whatever it contains, can end its element early.",
 ["histories","inputs"],"for all histories of style creation, drop and unregister on a writing manager, and all style texts",
 "No test covers the static writer at all.",
 [st+"manager/ssr.rs",st+"manager/mod.rs"],
 [("capture in get_or_register_style",st+"manager/mod.rs"),("write_static_markup",st+"manager/ssr.rs")],
 ["render_static(), StaticReader::read_style_data(), StyleData::write_static_markup(), serialised StyleData"],
 [("style data","captured styles in order",st+"manager/ssr.rs StyleData")])
p("C10","Hydration restores exactly the server's styles",
 "Style data captured by a server manager, after serialisation and deserialisation in a self-describing or a binary format, loads into a client manager such that creating any captured style there yields the server's id and the server's CSS text, for scoped and global styles alike, and creating any other style yields a new id. Loading the same data again changes nothing, and loading data that gives an already registered style a different id is refused with a panic.",
 ["histories","inputs"],"for all server histories, all serialisations and all client histories before and after loading",
 "No test covers serialisation or loading of style data.",
 [st+"manager/mod.rs",st+"manager/key.rs",core+"ast"],
 [("StyleData serde",st+"manager/mod.rs feat_ssr_hydration"),("load_style_data",st+"manager/mod.rs feat_hydration")],
 ["StyleData serde round trip, StyleManager::load_style_data, Style/GlobalStyle getters"])
p("C11","Yew components use the manager in context and SSR output matches its styles",
 "Rendering any component tree on the server gives every element that asks for a style (through use_style, a styled component's css!, or a style passed as a prop) the class that the nearest enclosing ManagerProvider's manager assigned to that exact CSS, and every Global its CSS as a global style of that manager. The styles captured by each manager are exactly those its components used, each once, so every class in the HTML has its CSS captured by the manager in scope and equal styles share a class.",
 ["programs","inputs"],"for all component trees with nested providers, shared and distinct styles, dynamic CSS and suspension-free server rendering",
 "The crate has no rendering test of any yew component; doc examples only compile.",
 [st+"yew/provider.rs",st+"yew/global.rs",st+"yew/hooks/use_style.rs",st+"yew/mod.rs",mac+"styled_component_impl.rs"],
 [("use_context::<StyleManager>",st+"yew/hooks/use_style.rs"),("ManagerProvider",st+"yew/provider.rs"),("Global",st+"yew/global.rs"),("css! shadowing macro",mac+"styled_component_impl.rs")],
 ["yew::LocalServerRenderer output and StyleData of each manager"])
p("C12","String-literal macros mean the same as parsing the substituted text",
 "For every accepted style text given as a string literal with `${name}` placeholders and named arguments, the macro's sheet renders exactly like the sheet parsed at run time from the text with each placeholder replaced by the argument's Display text. `$${` yields a literal `${`. This holds for placeholders anywhere they are accepted (values, strings, selectors, at-rule conditions), for argument texts that stay within the piece they are substituted into, and for any number, order and reuse of arguments.",
 ["programs","inputs"],"for all literal style texts, placeholder positions and argument values",
 "Macro tests compare about ten fixed invocations; the macro re-implements the sheet in generated code, so equality quantifies over all sheets.",
 [mac+"literal",mac+"output",core+"parser.rs"],
 [("literal macro",mac+"literal/mod.rs"),("placeholder parser",mac+"literal/fstring.rs"),("code generation",mac+"output")],
 ["rendering of css!/sheet!/style!/global_style! values in compiled programs"])
p("C13","Inline (token) macros render the CSS their tokens spell",
 "For every style written as tokens in the inline syntax, the rendered sheet has the selectors, at-rules, property names and values that the tokens spell, in order: identifiers with dashes (Rust's raw identifiers without their `r#`), numbers with units, colours, functions, strings, pseudo selectors and combinators come out as the same CSS, and selectors are split at top-level commas only. White space in the source means nothing; the output has it where the documentation says so: before an identifier, literal, `*` or `#` that follows a closing bracket, identifier, literal, `*` or `&`, between a literal and `-`, and between `and`, `or`, `not` and a parenthesis in conditions.",
 ["programs","inputs"],"for all inline styles of the supported token syntax",
 "Five test files check fixed invocations; the token-to-text spacing rules interact pairwise over all token kinds.",
 [mac+"inline",mac+"spacing_iterator.rs",mac+"output"],
 [("component value tokens",mac+"inline/component_value"),("fragment_spacing",mac+"inline/parse/mod.rs"),("selector splitting",mac+"inline/parse/qualifier.rs")],
 ["rendering of css!/sheet! inline invocations in compiled programs"])
p("C14","Interpolated expressions appear verbatim and hygienically",
 "In both macro syntaxes an interpolated expression of any Display type, at any supported position, contributes exactly its Display text at exactly that position, whatever other fragments surround it. Each evaluation of the macro evaluates the expression exactly once, however often its argument is used, and reads the current value (dynamic sheets are never cached across evaluations), and the expression sees only the caller's bindings: names such as Sheet, From, String or css in the caller's scope neither affect nor are affected by the macro.",
 ["programs","inputs","histories"],"for all interpolated types, values, positions, repeated evaluations and caller bindings",
 "Tests interpolate a handful of fixed values once; none re-evaluates a macro with changing values.",
 [mac+"output",mac+"inline/component_value/interpolated_expression.rs",mac+"literal/to_output_with_args.rs"],
 [("OutputCowString",mac+"output/cow_str.rs"),("static/const/dynamic decision",mac+"output/context.rs, maybe_static.rs, sheet.rs")],
 ["rendering of macro values evaluated repeatedly in compiled programs"])
p("C15","Invalid macro input is rejected at compile time, valid input is not",
 "A literal macro fails to compile when its text is not an accepted style, a placeholder has no argument, or an argument is unused or given twice; an inline macro fails to compile on unsupported at-rules, nested blocks, block or punctuation tokens that are not part of a value or selector, a missing value separator, a missing `;` before the end of a block, or an interpolated value that is not Display. The same invocation without the fault compiles.",
 ["programs"],"for all valid invocations and every single fault injected into them",
 "Nine compile-fail fixtures fix one program per diagnostic.",
 [mac+"literal/mod.rs",mac+"inline/parse",mac+"inline/component_value/mod.rs"],
 [("argument bookkeeping",mac+"literal/mod.rs"),("token validation",mac+"inline/component_value/mod.rs validate_*"),("at-rule whitelist",mac+"inline/parse/rule.rs")],
 ["rustc accepts or rejects the invocation"])
p("C16","In the browser each live style is mounted once, in place, and removed at its end",
 "Registering a style inserts exactly one `<style data-style=id>` element with the style's text into the manager's container, last when appending and first when prepending; re-creating a registered style inserts nothing. The element stays while the style is registered or any handle lives, and is removed, from whichever container it was mounted in, when the last of both goes; no other node is ever moved, changed or removed.",
 ["histories","configurations"],"for all histories of create, clone, drop, unregister and manager drop over managers with head, element or shadow-root containers holding foreign nodes, appending or prepending",
 "Mount code only compiles for wasm32; no test that runs here executes it.",
 [st+"manager/mod.rs",st+"manager/content.rs",st+"arch.rs"],
 [("mount/unmount",st+"manager/mod.rs"),("Drop for StyleContent",st+"manager/content.rs")],
 ["children of the containers of an in-memory DOM that stands in for web-sys"],
 [("document","the DOM tree","browser")])
p("C17","Sheets are values: equality, hashing and serialisation follow content",
 "Two sheets are equal, and hash equally, exactly when they have the same structure and texts, whether they are built from borrowed or owned parts, parsed, cloned or generated by a macro. Serialising a sheet and deserialising it, in a self-describing or a binary format, yields an equal sheet that renders identically.",
 ["inputs"],"for all sheets, their borrowed/owned variants and single-point edits",
 "No test covers serde of sheets or the borrowed/owned distinction; the registry and hydration rely on it.",
 [core+"ast",core+"bow.rs"],
 [("derived Eq/Hash/serde",core+"ast"),("Bow",core+"bow.rs"),("Sheet serde",core+"ast/sheet.rs")],
 ["==, Hash, serde_json and bincode on stylist::ast values"])
p("C18","Parse results do not depend on history or concurrency",
 "Parsing a text gives a sheet equal to the one any other parse of that text gives, regardless of what was parsed before, of how similar other texts are, of earlier failures, and of other threads parsing at the same time; a text that failed once fails again, and a failed parse never disturbs later ones.",
 ["histories","schedules"],"for all sequences of texts parsed on any number of threads",
 "Parsed sheets are memoised in a process-wide cache; no test parses the same text twice or from two threads.",
 [core+"ast/sheet.rs"],
 [("process-wide memo",core+"ast/sheet.rs feat_parser CACHED_SHEETS")],
 ["Sheet::from_str on several threads"],
 [("parse cache","text to sheet memo",core+"ast/sheet.rs CACHED_SHEETS")])
p("C19","Every way of supplying the same CSS yields the same style",
 "Strings, string slices, Cow strings, parsed sheets, StyleSource values and FromStr all produce the same style for the same CSS in the same manager: one registration, one class, one text. Invalid CSS gives an error from every one of them and registers or captures nothing, and new, create, new_with_manager and create_with_manager differ only in which manager and prefix they use.",
 ["inputs","programs"],"for all style texts (valid and invalid), entry points and source types",
 "Tests use one source type per test; their agreement is not checked.",
 [st+"style_src.rs",st+"style.rs",st+"global_style.rs"],
 [("TryFrom/From/FromStr for StyleSource",st+"style_src.rs"),("constructors",st+"style.rs, "+st+"global_style.rs")],
 ["Style/GlobalStyle constructors and StyleSource conversions"])
p("C20","Debug builds refuse styles corrupted by interpolated text",
 "With debug checks on, creating a style whose rendered CSS is no longer a well-formed style sheet because of an interpolated selector, value or condition (unbalanced braces, unterminated string or comment, a dangling declaration) panics instead of registering it; nothing is registered, captured or mounted for it. Styles whose interpolated text leaves the sheet well-formed are never refused, and after a refusal the manager keeps working as if the attempt had not been made.",
 ["inputs","histories","fault_sequences"],"for all sheets with interpolated fragments, well-formed or corrupting, in any order on one manager",
 "No test triggers the debug check.",
 [st+"manager/mod.rs",core+"parser.rs"],
 [("debug re-parse before registration",st+"manager/mod.rs get_or_register_style")],
 ["panic or not of Style::new_with_manager; registry and captured data afterwards"])
p("C21","Prepared media queries render their fallback on the server",
 "Server rendering of components using the prepared media-query hook never fails and shows each call's own fallback value, whatever the query text, however many calls a component makes and wherever it is in the tree, and the prepared state written to the page carries exactly those fallbacks, in order, for hydration.",
 ["programs","inputs"],"for all queries, fallbacks and component trees",
 "The hook has no test; without a window the non-prepared path panics.",
 [st+"yew/hooks/use_media_query.rs"],
 [("use_prepared_state",st+"yew/hooks/use_media_query.rs"),("window()",st+"arch.rs")],
 ["yew::LocalServerRenderer output (values shown and hydration state)"])
p("C22","Live media queries follow the browser's state",
 "A mounted component using the media-query hook always shows whether its current query matches: it reflects the initial state, re-renders when the match changes, follows a changed query, and stops listening when it is unmounted.",
 ["histories"],"for all sequences of match changes, query changes, mounts and unmounts",
 "Needs a browser; no test runs it.",
 [st+"yew/hooks/use_media_query.rs"],
 [("change listener effect",st+"yew/hooks/use_media_query.rs")],
 ["rendered DOM of a client-side application"])
p("C23","Dropping a manager releases its styles; nothing leaks or is shared",
 "A style manager owns its registrations without cycles: when the last clone of a manager is gone, every style without a live handle is freed, styles with handles stay readable, and their unregister becomes a harmless no-op. Clones of a manager are the same manager (equal, one registry); separately built managers are never equal and keep their own prefix and container settings.",
 ["histories"],"for all histories of manager clone/drop and style create/clone/drop/unregister",
 "No test drops a manager.",
 [st+"manager/mod.rs",st+"manager/content.rs"],
 [("WeakStyleManager",st+"manager/mod.rs"),("Rc ownership",st+"manager/content.rs, registry.rs")],
 ["mounted elements in the in-memory DOM; handles and manager equality"])
p("C24","In the browser, components follow their props and hydrate to the server's styles",
 "In a client-side application, after every render each element asking for a style has the class that the nearest enclosing ManagerProvider's manager assigns to that exact current CSS, and that style is mounted exactly once by that manager. The CSS of a Global is mounted while the Global is rendered, follows changes of its css prop and of the manager in context, and leaves with it. Hydrating a server-rendered page whose styles were shipped with it gives every element the server's class, reuses the server's style elements without creating any for the styles it brought, and the page afterwards behaves like any other.",
 ["histories","programs","inputs"],"for all component trees with nested providers, all sequences of re-renders with changed styles, globals, managers and structure, rendered afresh or hydrated from a server-rendered page",
 "Client rendering and hydration need a browser; no test that runs here renders or hydrates any component.",
 [st+"yew/provider.rs",st+"yew/global.rs",st+"yew/hooks/use_style.rs",st+"manager/mod.rs",st+"manager/content.rs",mac+"styled_component_impl.rs"],
 [("use_style memo",st+"yew/hooks/use_style.rs"),("Global's effect and guard",st+"yew/global.rs"),("ManagerProvider loading style data",st+"yew/provider.rs"),("mount/hydrate",st+"manager/mod.rs, content.rs")],
 ["the DOM of an in-memory browser after every render: classes of elements, style elements of every container"],
 [("document","the DOM tree","browser")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
