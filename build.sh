# sourced by run.sh and setup.sh: vmc_build <id|all>
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
REPO="${VMC_REPO:-/repo}"

vmc_inputs() {
  ( cd "$REPO" && find . -path ./.git -prune -o -path ./data -prune -o -name '*.go' -print0 -o -name go.mod -print0 | sort -z | xargs -0 sha256sum
    cd "$V/src" && find . -type f -print0 | sort -z | xargs -0 sha256sum
    go version ) | sha256sum | cut -d' ' -f1
}

vmc_needs_race() {
  case "$1" in C0*|H02|all) return 0;; esac
  return 1
}

vmc_build() {
  mkdir -p "$V/build"
  exec 9>"$V/build/lock"
  flock 9
  local key; key="$(vmc_inputs)"
  if [ "$(cat "$V/build/stamp" 2>/dev/null)" != "$key" ]; then
    rm -f "$V/build/stamp" "$V/build/stamp.race"
    ( cd "$V/src/inst" && go build -o "$V/build/inst" . ) || return 1
    vmc_make "" || { echo "instrumented build failed; retrying with a plain copy" >&2; vmc_make -plain || return 1; }
    echo "$key" > "$V/build/stamp"
  fi
  if vmc_needs_race "$1" && [ "$(cat "$V/build/stamp.race" 2>/dev/null)" != "$key" ]; then
    ( cd "$V/src/mc" && go build -race -tags ne -o "$V/build/mcrace" . ) || return 1
    echo "$key" > "$V/build/stamp.race"
  fi
  flock -u 9
}

vmc_make() {
  rm -rf "$V/build/w"
  mkdir -p "$V/build/w"
  "$V/build/inst" -repo "$REPO" -out "$V/build/w" $1 || return 1
  ( cd "$V/src/mc" && go build -tags ne -o "$V/build/mc" . )
}
