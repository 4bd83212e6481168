#!/bin/bash
# build.sh SCRATCH [tags]: builds, into SCRATCH,
#   mc       the model checker, linked with /repo's current tree and with a standard library whose
#            clock, map iteration offsets, map placement, process number and random numbers it can
#            choose (a compiler overlay; GOROOT is untouched)
#   gledger  the real program, unmodified
# Nothing is written outside SCRATCH and Go's own build cache.
set -e
S=${1:?scratch}; TAGS=$2
V=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
R=$(go env GOROOT)
mkdir -p "$S/ov" "$S/src"
sed 's/^func Now() Time {/var VerifNow func() Time\n\nfunc Now() Time {\n\tif VerifNow != nil {\n\t\treturn VerifNow()\n\t}/' "$R/src/time/time.go" > "$S/ov/time.go"
sed 's/\(it\.\(entry\|dir\)Offset = \)rand()/\1iterRand()/' "$R/src/internal/runtime/maps/table.go" > "$S/ov/table.go"
sed 's/^func Exit(code int) {/var VerifExit func(int)\n\nfunc Exit(code int) {\n\tif VerifExit != nil {\n\t\tVerifExit(code)\n\t}/' "$R/src/os/proc.go" > "$S/ov/proc.go"
sed -e 's/^func Open(path string, mode int, perm uint32) (fd int, err error) {/var VerifTouch func(op, path string)\n\nfunc verifTouch(op, path string) {\n\tif VerifTouch != nil {\n\t\tVerifTouch(op, path)\n\t}\n}\n\n&\n\tif mode\&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND) != 0 {\n\t\tverifTouch("open for writing", path)\n\t}\n\tverifAsk("path", path)/' \
    -e 's/^func \(Readlink\|Faccessat\)(.*path string.*{$/&\n\tverifAsk("path", path)/' \
    -e 's/^func \(Chmod\|Mkdir\|Rmdir\|Unlink\)(path string.*{$/&\n\tverifTouch("\1", path)/' \
    -e 's/^func \(Link\|Rename\|Symlink\)(\(oldpath string, newpath\|oldpath, newpath\) string) .*{$/&\n\tverifTouch("\1", newpath)/' "$R/src/syscall/syscall_linux.go" > "$S/ov/syscall_linux.go"
[ "$(grep -c 'verifTouch("' "$S/ov/syscall_linux.go")" = 8 ] || { echo "cannot place the seams in this Go release" >&2; exit 70; }
sed -e 's/^func \(Stat\|Lstat\)(path string, stat \*Stat_t) (err error) {$/&\n\tverifAsk("path", path)/' "$R/src/syscall/syscall_linux_amd64.go" > "$S/ov/syscall_linux_amd64.go"
sed -e 's/^func Getenv(key string) (value string, found bool) {$/var VerifAsk func(kind, name string)\n\nvar VerifAsked [][2]string\n\nfunc verifAsk(kind, name string) {\n\tif VerifAsk != nil {\n\t\tVerifAsk(kind, name)\n\t} else if len(VerifAsked) < 1000 {\n\t\tVerifAsked = append(VerifAsked, [2]string{kind, name})\n\t}\n}\n\n&\n\tverifAsk("env", key)/' "$R/src/syscall/env_unix.go" > "$S/ov/env_unix.go"
[ "$(cat "$S/ov/syscall_linux.go" "$S/ov/syscall_linux_amd64.go" "$S/ov/env_unix.go" | grep -c 'verifAsk("')" = 6 ] || { echo "cannot place the seams in this Go release" >&2; exit 70; }
sed 's/m\.seed = uintptr(rand())/m.seed = uintptr(seedRand())/' "$R/src/internal/runtime/maps/map.go" > "$S/ov/map.go"
sed 's/key\[i\] = bootstrapRand()/key[i] = bootstrapRand()*0 + 0x9e3779b97f4a7c15*uint64(i+1)/' "$R/src/internal/runtime/maps/runtime_alg.go" > "$S/ov/alg.go"
sed -e 's/^func Getpid() int { return syscall.Getpid() }/var VerifPid int\n\nfunc Getpid() int {\n\tif VerifPid != 0 {\n\t\treturn VerifPid\n\t}\n\treturn syscall.Getpid()\n}/' -e 's/^func Getppid() int { return syscall.Getppid() }/func Getppid() int {\n\tif VerifPid != 0 {\n\t\treturn VerifPid - 1\n\t}\n\treturn syscall.Getppid()\n}/' "$R/src/os/exec.go" > "$S/ov/exec.go"
for v in "" /v2; do
	sed -e '/^func runtime_rand() uint64/!s/runtime_rand()/verifRand()/' -e 's/^func runtime_rand() uint64/&\n\nvar VerifRand func() uint64\n\nfunc verifRand() uint64 {\n\tif VerifRand != nil {\n\t\treturn VerifRand()\n\t}\n\treturn runtime_rand()\n}/' "$R/src/math/rand$v/rand.go" > "$S/ov/rand${v#/}.go"
done
[ "$(grep -c 'seedRand()' "$S/ov/map.go") $(grep -c 'return VerifPid' "$S/ov/exec.go") $(grep -c 'verifRand()' "$S/ov/rand.go") $(grep -c 'verifRand()' "$S/ov/randv2.go") $(grep -c 0x9e3779b97f4a7c15 "$S/ov/alg.go")" = "4 2 3 2 1" ] || { echo "cannot place the seams in this Go release" >&2; exit 70; }
grep -q 'return VerifNow()' "$S/ov/time.go" && grep -q 'VerifExit(code)' "$S/ov/proc.go" && [ "$(grep -c 'Offset = iterRand()' "$S/ov/table.go")" = 2 ] || { echo "cannot place the seams in this Go release" >&2; exit 70; }
cat > "$S/ov/hook.go" <<'G'
package maps

var VerifIter func() uint64

func iterRand() uint64 {
	if VerifIter != nil {
		return VerifIter()
	}
	return rand()
}

var VerifSeed uint64

func seedRand() uint64 {
	if VerifSeed != 0 {
		return VerifSeed
	}
	return rand()
}
G
cat > "$S/ov/rt.go" <<'G'
package runtime

import "internal/runtime/maps"

func VerifSetMapIter(f func() uint64) { maps.VerifIter = f }

func VerifSetMapSeed(s uint64) { maps.VerifSeed = s }
G
cat > "$S/ov.json" <<J
{"Replace":{
"$R/src/time/time.go":"$S/ov/time.go",
"$R/src/os/proc.go":"$S/ov/proc.go",
"$R/src/syscall/syscall_linux.go":"$S/ov/syscall_linux.go",
"$R/src/syscall/syscall_linux_amd64.go":"$S/ov/syscall_linux_amd64.go",
"$R/src/syscall/env_unix.go":"$S/ov/env_unix.go",
"$R/src/internal/runtime/maps/table.go":"$S/ov/table.go",
"$R/src/internal/runtime/maps/map.go":"$S/ov/map.go",
"$R/src/internal/runtime/maps/runtime_alg.go":"$S/ov/alg.go",
"$R/src/os/exec.go":"$S/ov/exec.go",
"$R/src/math/rand/rand.go":"$S/ov/rand.go",
"$R/src/math/rand/v2/rand.go":"$S/ov/randv2.go",
"$R/src/internal/runtime/maps/verif_hook.go":"$S/ov/hook.go",
"$R/src/runtime/verif_hook.go":"$S/ov/rt.go"}}
J
cp "$V"/mc/*.go "$V"/mc/go.mod "$V"/mc/go.sum "$S/src/"
(cd /repo && go build -trimpath -o "$S/gledger" .) &
B=$!
(cd "$S/src" && go build -trimpath -tags "$TAGS" -overlay "$S/ov.json" -o "$S/mc" .)
wait $B
