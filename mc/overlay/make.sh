#!/bin/bash
# usage: make.sh DIR   writes DIR/overlay.json that replaces the map iterator of the Go runtime with one
# whose order is decided by the explorer (maps.VerifOrder). Made from the sources of the installed toolchain.
set -eu
D=$1
mkdir -p "$D"
D=$(cd "$D" && pwd)
SRC=$(go env GOROOT)/src/internal/runtime/maps
sed -e 's|^\tit.entryOffset = rand()$|\tit.entryOffset = rand() \&^ (1 << 63)|' \
    -e 's|^\tit.group = groupSmall$|\tit.group = groupSmall\n\tit.verifInit()|' \
    -e 's|^\t\t\tk := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots$|\t\t\tk := it.verifSlot()|' \
    "$SRC/table.go" >"$D/table.go"
cat >>"$D/table.go" <<'G'

// VerifOrder decides the order of iteration over a map of the given size, 0 leaves it random.
// For small maps the result has a position of an element in every three bits, for others it is an offset.
//
//go:linkname VerifOrder
var VerifOrder func(used uint64) uint64

func (it *Iter) verifInit() {
	if VerifOrder == nil || it.m.used < 2 {
		return
	}
	o := VerifOrder(it.m.used)
	if o == 0 {
		return
	}
	if it.m.dirLen > 0 {
		it.entryOffset = o & 0xffff
		it.dirOffset = o & 0xffff
		return
	}
	g := groupReference{data: it.m.dirPtr}
	var live [abi.MapGroupSlots]uint64
	n, dead := uint64(0), uint64(0)
	for i := uintptr(0); i < abi.MapGroupSlots; i++ {
		if (g.ctrls().get(i) & ctrlEmpty) != ctrlEmpty {
			live[n] = uint64(i)
			n++
		}
	}
	p := uint64(1) << 63
	for i := uint64(0); i < n; i++ {
		p |= live[(o>>(3*i))&7] << (3 * i)
	}
	for i := uintptr(0); i < abi.MapGroupSlots; i++ {
		if (g.ctrls().get(i) & ctrlEmpty) == ctrlEmpty {
			p |= uint64(i) << (3 * (n + dead))
			dead++
		}
	}
	it.entryOffset = p
}

func (it *Iter) verifSlot() uintptr {
	if it.entryOffset>>63 != 0 {
		return uintptr(it.entryOffset>>(3*it.entryIdx)) & 7
	}
	return uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots
}

G
sed -e 's|m.seed = uintptr(rand())|m.seed = 0x5eed|' "$SRC/map.go" >"$D/map.go"
[ "$(grep -c verifInit "$D/table.go")" = 2 ] && [ "$(grep -c verifSlot "$D/table.go")" = 2 ] && [ "$(grep -c '&^ (1 << 63)' "$D/table.go")" = 1 ] && [ "$(grep -c 0x5eed "$D/map.go")" -ge 1 ] || {
  echo "make.sh: the map iterator of this toolchain is not the known one" >&2
  exit 1
}
cat >"$D/overlay.json" <<G
{"Replace": {"$SRC/table.go": "$D/table.go", "$SRC/map.go": "$D/map.go"}}
G
