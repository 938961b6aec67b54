#!/bin/bash
# Compiles the crate under test and the scenarios so that every memory access is announced.
shift_rustc="$1"; shift
export RUSTC_BOOTSTRAP=1
case " $* " in
  *" --crate-name renplex "*|*" --crate-name scen "*) exec "$shift_rustc" "$@" -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -Zshare-generics=no ;;
  *) exec "$shift_rustc" "$@" -Cunsafe-allow-abi-mismatch=sanitizer ;;
esac
