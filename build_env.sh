# sourced: build_cfg <config> builds the harness for one feature configuration and sets BIN_<config>
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
build_cfg() {
  local cfg="$1" feat
  case "$cfg" in
    default) feat="" ;;
    sched) feat="" ;;
    *) return 2 ;;
  esac
  local td="$WZPBT_ROOT/harness/target-$cfg"
  [ "$cfg" = default ] && td="$WZPBT_ROOT/harness/target"
  local flags=()
  if [ "$cfg" = sched ]; then
    # the library's hook puts this crate's lock in place of the one of std
    local lib="$WZPBT_ROOT/harness/sched/lib.rs" sum dir
    sum=$(sha256sum <"$lib" | cut -c1-16)
    dir="$td/sched-$sum"
    if [ ! -f "$dir/libwz_sched.rlib" ]; then
      mkdir -p "$dir" && rustc --edition 2021 -O -C debug-assertions --crate-type rlib --crate-name wz_sched \
        -o "$dir/libwz_sched.rlib" "$lib" >"$td.log" 2>&1 || { tail -40 "$td.log" >&2; return 1; }
    fi
    flags=(RUSTFLAGS="--cfg wz_sched --extern wz_sched=$dir/libwz_sched.rlib -L dependency=$dir")
  fi
  (cd "$WZPBT_ROOT/harness" && env "${flags[@]}" cargo build --offline --locked -q $feat --target-dir "$td" >"$td.log" 2>&1) || { tail -40 "$td.log" >&2; return 1; }
  eval "BIN_$cfg=\"$td/debug/wzpbt\""
}

# the digest server in the other feature configurations; sets WZPBT_DIGEST
DIGESTS="norayon:json plain: indexmap:rayon,indexmap,json indexmap-plain:indexmap"
build_digests() {
  local d name feat td list="" pids=() rc=0
  for d in $DIGESTS; do
    name="${d%%:*}" feat="${d#*:}" td="$WZPBT_ROOT/harness/target-digest-${d%%:*}"
    (cd "$WZPBT_ROOT/harness/digest" && cargo build --offline --locked -q --no-default-features --features "$feat" --target-dir "$td" >"$td.log" 2>&1) &
    pids+=($!)
    list="$list,$name=$td/debug/wzdigest"
  done
  for d in "${pids[@]}"; do wait "$d" || rc=1; done
  [ $rc = 0 ] || tail -n 30 "$WZPBT_ROOT"/harness/target-digest-*.log >&2
  export WZPBT_DIGEST="${list#,}"
  return $rc
}
