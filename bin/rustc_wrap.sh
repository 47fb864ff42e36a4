#!/bin/sh
# RUSTC_WRAPPER of the scheduled build: the library sees shim/adv_std.rs as its std.
rustc=$1; shift
case " $* " in
  *" --crate-name advantage "*) exec "$rustc" "$@" --extern "std=$ADV_STD" --cap-lints allow ;;
  *" --crate-name adv_sched "* | *" --crate-name adv_columns "*) exec "$rustc" "$@" --cfg adv_sched --extern "adv_std=$ADV_STD" -L "dependency=$(dirname "$ADV_STD")" ;;
esac
exec "$rustc" "$@"
