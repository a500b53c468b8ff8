#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: compile as asked, and print the MIR of the same crate with the same arguments
rustc="$1"; shift
name=; type=; prev=
for a in "$@"; do
  case "$prev" in --crate-name) name="$a";; --crate-type) type="$a";; esac
  prev="$a"
done
"$rustc" "$@" || exit $?
case "$name" in
  gfm|smd_core|smd)
    [ "$type" = bin ] && name=main
    args=()
    skip=
    for a in "$@"; do
      if [ -n "$skip" ]; then skip=; continue; fi
      case "$a" in
        --emit=*|--json=*|--error-format=*|-Cincremental=*) ;;
        *) args+=("$a") ;;
      esac
    done
    "$rustc" "${args[@]}" -Zunpretty=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -Cpanic=abort > "$MIRDUMP_DIR/$name.tmp" 2> "$MIRDUMP_DIR/$name.err" || exit $?
    mv "$MIRDUMP_DIR/$name.tmp" "$MIRDUMP_DIR/$name.mir"
    ;;
esac
exit 0
