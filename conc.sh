# Sourced by check.sh: builds the instrumented explorer of schedules into $work/conc.
mkdir -p "$work/ov" && (cd "$here/mc" && go build "${mod[@]}" -o "$work/instrument" ./cmd/instrument) || return 1
built=
for mode in typed reflect thunk; do
  "$work/instrument" "$repo" "$work/ov" $mode > "$work/instrument.log" 2>&1 || { cat "$work/instrument.log"; return 1; }
  if build "$work/conc" -race -gcflags=all=-d=checkptr=0 -overlay "$work/ov/overlay.json" ./cmd/conc > "$work/conc.log" 2>&1; then
    built=1; break
  fi
done
[ -n "$built" ] || { cat "$work/conc.log"; echo "cannot build the explorer of schedules from $repo"; return 1; }
export GORACE="exitcode=0 atexit_sleep_ms=0"
