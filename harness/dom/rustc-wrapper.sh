#!/bin/bash
rustc="$1"; shift
for ((i=1;i<=$#;i++)); do if [ "${!i}" = "--crate-name" ]; then j=$((i+1)); name="${!j}"; fi; done
if [ "$name" = stylist ]; then exec "$rustc" "$@" --cfg 'target_arch="wasm32"' -A explicit_builtin_cfgs_in_flags; fi
exec "$rustc" "$@"
