def main(imports, body, extra=""):
    imps = "\n".join('\t"%s"' % i for i in imports)
    return "package main\n\nimport (\n" + imps + "\n)\n\n" + extra + "\nfunc main() {\n" + body + "\n}\n"
U = "github.com/unsafe-risk/utilx/"
SEEDS = [
dict(id="S05", prop="P12", needs="a map with a tall node, cleared, and then a lookup of an old key that lies past the tall node",
 breaks="Clear empties only the bottom level, so searches still descend into the old nodes and find keys that were cleared",
 edits=[("dsx/mapx/sklmapx/sklmapx.go", "	// Clear the map by creating a new one.\n	*m = *New[K, V]()\n", "	// Clear the map by unlinking its nodes.\n	m.skl.head.next[0] = m.skl.tail\n	m.skl.len = 0\n")],
 demo=main(["fmt", "os", U + "dsx/mapx/sklmapx"], '''	for try := 0; try < 20; try++ {
		m := sklmapx.New[int, int]()
		for i := 0; i < 200; i++ {
			m.Set(i, i)
		}
		m.Clear()
		for i := 0; i < 200; i++ {
			if v, ok := m.Get(i); ok {
				fmt.Println("cleared map holds", i, v)
				os.Exit(1)
			}
		}
	}''')),
dict(id="S06", prop="P16", needs="a test of a position at or above the width of the set's type",
 breaks="positions the set cannot hold are reported as members, because the shifted mask is zero and equals the masked data",
 edits=[("dsx/setx/bitsetx/bitsetx.go", "		t = t || b.data&(1<<i) != 0\n", "		t = t || b.data&(1<<i) == 1<<i\n")],
 demo=main(["fmt", "os", U + "dsx/setx/bitsetx"], '''	var b bitsetx.BitSet[uint8]
	b.Set(0, 7)
	for i := 0; i < 40; i++ {
		if b.Test(i) != (i == 0 || i == 7) {
			fmt.Println("Test", i, b.Test(i))
			os.Exit(1)
		}
	}''')),
dict(id="S07", prop="P20", needs="several equal elements at the very end of the slice, and a search for them",
 breaks="the shortcut for the last element answers with the last of several equal elements, not the first",
 edits=[("algox/searchx/searchx.go", "	return slices.BinarySearchFunc(s, x, less)\n", "	if n := len(s); n > 0 && less(s[n-1], x) == 0 {\n		return n - 1, true\n	}\n	return slices.BinarySearchFunc(s, x, less)\n")],
 demo=main(["fmt", "os", U + "algox/searchx"], '''	i, ok := searchx.Search([]int{1, 2, 5, 5, 5}, 5)
	if i != 2 || !ok {
		fmt.Println(i, ok)
		os.Exit(1)
	}''')),
dict(id="S08", prop="P21", needs="a stable sort of 13 to 16 elements that compare equal but can be told apart",
 breaks="short slices are sorted with the unstable algorithm, which keeps equal elements in order only up to 12 elements",
 edits=[("algox/sortx/sortx.go", "	slices.SortStableFunc(s, less)\n", "	if len(s) <= 16 {\n		slices.SortFunc(s, less)\n		return\n	}\n	slices.SortStableFunc(s, less)\n")],
 demo=main(["fmt", "os", U + "algox/sortx"], '''	for n := 0; n < 40; n++ {
		for k := 1; k < 8; k++ {
			s := make([][2]int, n)
			for i := range s {
				s[i] = [2]int{(i * 7) % k, i}
			}
			sortx.SortStableCustom(s, func(a, b [2]int) bool { return a[0] < b[0] })
			for i := 1; i < n; i++ {
				if s[i-1][0] > s[i][0] || s[i-1][0] == s[i][0] && s[i-1][1] > s[i][1] {
					fmt.Println(n, k, s)
					os.Exit(1)
				}
			}
		}
	}''')),
dict(id="S09", prop="P22", needs="readings whose agreement is a single point",
 breaks="a range of one point is refused, so readings that only touch, or an exact reading, are reported as not intersecting",
 edits=[("timex/intersectionx/intersectionx.go", "		if lower <= upper && Mid <= F {\n", "		if lower < upper && Mid <= F {\n")],
 demo=main(["fmt", "os", U + "timex/intersectionx"], '''	a, b, ok := intersectionx.Intersection(intersectionx.Interval{Offset: 5, ConfidenceBand: 0}, intersectionx.Interval{Offset: 5, ConfidenceBand: 3}, intersectionx.Interval{Offset: 5, ConfidenceBand: 1})
	if a != 5 || b != 5 || !ok {
		fmt.Println(a, b, ok)
		os.Exit(1)
	}''')),
dict(id="S10", prop="P23", needs="a time before 1970 that is not midnight",
 breaks="days before 1970 are rounded towards 1970 instead of to their own start",
 edits=[("timex/truncatex/truncatex.go", "	return Truncate(sec, 1*60*60*24)\n", "	const day = 60 * 60 * 24\n	return sec / day * day\n")],
 demo=main(["fmt", "os", U + "timex/truncatex"], '''	if d := truncatex.TruncateDay(-1); d != -86400 {
		fmt.Println(d)
		os.Exit(1)
	}''')),
dict(id="S11", prop="P24", needs="a stored record whose hash part is cut short, or empty, with the lengths in its header adjusted",
 breaks="only as many bytes of the hash as the record holds are compared, so a record with an empty hash accepts every password",
 edits=[("cryptox/passhashx/passhash.go", "	if subtle.ConstantTimeCompare(hash, data.Hash()) != 1 {\n", "	stored := data.Hash()\n	if len(stored) < len(hash) {\n		hash = hash[:len(stored)]\n	}\n	if subtle.ConstantTimeCompare(hash, stored) != 1 {\n")],
 files={"demo.sh": '''#!/bin/bash
# cwd: /repo. Runs demo.go as a package of cryptox/passhashx (for its internal record type) through an overlay.
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/cryptox/passhashx/zz_demo/main.go":"%s/demo.go"}}' "$PWD" "$D" > "$T/ov.json"
go build -mod=readonly -overlay "$T/ov.json" -o "$T/demo" ./cryptox/passhashx/zz_demo || exit 3
cd "$T" && timeout 120 ./demo
''', "demo.go": main(["fmt", "os", U + "cryptox/passhashx", U + "cryptox/passhashx/internal"], '''	rec := internal.New_PasswordHash(internal.Parameter_Argon2ID_Mobile_Low, make([]byte, 16), []byte{})
	if passhashx.Verify([]byte("any password"), rec) == nil {
		fmt.Println("a record without a hash accepts a password")
		os.Exit(1)
	}''')}),
dict(id="S12", prop="P31", needs="a closer that panics, recovered by the caller, and then any other use of the manager",
 breaks="the lock stays held when a closer panics, so the next use of the manager hangs",
 edits=[("iox/managerx/closex/manager.go", "func (c *CloseManager) Close() error {\n	c.lock.Lock()\n	defer c.lock.Unlock()\n", "func (c *CloseManager) Close() error {\n	c.lock.Lock()\n"),
        ("iox/managerx/closex/manager.go", "			errs = append(errs, err)\n		}\n	}\n", "			errs = append(errs, err)\n		}\n	}\n	c.lock.Unlock()\n")],
 demo=main(["fmt", "os", "time", U + "iox/managerx/closex"], '''	m := closex.New()
	m.Append(bad{})
	func() {
		defer func() { recover() }()
		m.Close()
	}()
	done := make(chan bool)
	go func() { m.Append(bad{}); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		fmt.Println("the manager hangs")
		os.Exit(1)
	}''', "type bad struct{}\n\nfunc (bad) Close() error { panic(1) }\n")),
dict(id="S13", prop="P30", needs="a decimal text of at least 2^63 converted to an unsigned 64-bit type",
 breaks="numbers from 2^63 on are cut down to 2^63-1",
 edits=[("typex/convx/converters.go", "	i, _ := strconv.ParseUint(s, 10, 64)\n", "	i, _ := strconv.ParseUint(s, 10, 63)\n")],
 demo=main(["fmt", "os", U + "typex/convx"], '''	if v, ok := convx.Into[string, uint64]("18446744073709551615"); !ok || v != 1<<64-1 {
		fmt.Println(v, ok)
		os.Exit(1)
	}''')),
dict(id="S14", prop="P15", needs="a delete of a key that is not in the map, then a size",
 breaks="the size is kept in a counter that a delete of an absent key lowers as well",
 edits=[("dsx/mapx/syncmapx/syncmapx.go", "	m   map[K]V\n	mtx sync.RWMutex\n", "	m   map[K]V\n	n   int\n	mtx sync.RWMutex\n"),
        ("dsx/mapx/syncmapx/syncmapx.go", "	size := len(m.m)\n", "	size := m.n\n"),
        ("dsx/mapx/syncmapx/syncmapx.go", "	m.m[k] = v\n", "	if _, ok := m.m[k]; !ok {\n		m.n++\n	}\n	m.m[k] = v\n"),
        ("dsx/mapx/syncmapx/syncmapx.go", "	delete(m.m, k)\n", "	if len(m.m) > 0 {\n		delete(m.m, k)\n		m.n--\n	}\n"),
        ("dsx/mapx/syncmapx/syncmapx.go", "	m.m = make(map[K]V)\n	m.mtx.Unlock()\n}", "	m.m = make(map[K]V)\n	m.n = 0\n	m.mtx.Unlock()\n}")],
 demo=main(["fmt", "os", U + "dsx/mapx/syncmapx"], '''	m := syncmapx.New[string, int]()
	m.Set("a", 1)
	m.Set("a", 2)
	m.Delete("b")
	if m.Size() != 1 {
		fmt.Println(m.Size())
		os.Exit(1)
	}''')),
dict(id="S15", prop="P26", needs="decrypting the same CBC data twice, or using it after decrypting",
 breaks="decrypting overwrites the caller's encrypted data with the plain text",
 edits=[("cryptox/aesx/cbcx.go", "	result := make([]byte, len(ciphertext))\n	mode.CryptBlocks(result, ciphertext)\n	return result, nil\n", "	mode.CryptBlocks(ciphertext, ciphertext)\n	return ciphertext, nil\n")],
 demo=main(["bytes", "fmt", "os", U + "cryptox/aesx"], '''	data := bytes.Repeat([]byte("0123456789abcdef"), 3)
	e, err := aesx.EncryptCBC(data, []byte("key"))
	if err != nil {
		os.Exit(4)
	}
	for i := 0; i < 2; i++ {
		d, err := aesx.DecryptCBC(e, []byte("key"))
		if err != nil || !bytes.Equal(d, data) {
			fmt.Println("decryption", i, "differs")
			os.Exit(1)
		}
	}''')),
dict(id="S16", prop="P18", needs="a constructor that reads the lazy value, or a second reader while the constructor runs",
 breaks="the value counts as ready before it is computed, so a reader in that moment gets the zero value",
 edits=[("functionalx/lazyx/lazy.go", "	o     sync.Once\n", "	o     sync.Once\n	ready atomic.Bool\n"), ("functionalx/lazyx/lazy.go", 'import "sync"\n', 'import (\n	"sync"\n	"sync/atomic"\n)\n'),
        ("functionalx/lazyx/lazy.go", "	l.o.Do(func() {\n		l.value = l.ctor()\n", "	if l.ready.Load() {\n		return l.value\n	}\n	l.o.Do(func() {\n		l.ready.Store(true)\n		l.value = l.ctor()\n")],
 demo=main(["fmt", "os", "time", U + "functionalx/lazyx"], '''	begun := make(chan bool)
	l := lazyx.New(func() int {
		close(begun)
		time.Sleep(300 * time.Millisecond)
		return 7
	})
	go l.Get()
	<-begun
	if v := l.Get(); v != 7 {
		fmt.Println("early value", v)
		os.Exit(1)
	}''')),
dict(id="S17", prop="P33", needs="a slot used again for a shorter record than before",
 breaks="a slot's memory is reused without setting its length, so a shorter record is read with the tail of the older one",
 edits=[("iox/decouplex/decouple.go", "	d.buffer[idx] = append(d.buffer[idx][:0], b...)\n", "	if cap(d.buffer[idx]) < len(b) {\n		d.buffer[idx] = make([]byte, len(b))\n	}\n	copy(d.buffer[idx], b)\n"),
        ("iox/decouplex/decouple.go", "	if len(b) == 0 {\n		return d.drop(b)\n	}\n", "	if len(b) < 1 {\n		return d.drop(b)\n	}\n")],
 demo=main(["fmt", "os", U + "iox/decouplex"], '''	d := decouplex.NewDecoupler(1, nil)
	for _, s := range []string{"long record", "short"} {
		d.Write([]byte(s))
		d.Next(func(b []byte) {
			if string(b) != s {
				fmt.Printf("%q read as %q\\n", s, b)
				os.Exit(1)
			}
		})
	}''')),
dict(id="S18", prop="P13", needs="an iterator moved to a key by Seek and then rewound",
 breaks="the iterator keeps its place when a search misses, so the enumeration that follows skips elements",
 edits=[("dsx/mapx/sklmapx/sklmapx.go", "	i.node = i.list.skl.search(key, &i.ctx)\n	if i.node == nil {\n		var zero K\n", "	node := i.list.skl.search(key, &i.ctx)\n	if node != nil {\n		i.node = node\n	} else {\n		var zero K\n")],
 demo=main(["fmt", "os", U + "dsx/mapx/sklmapx"], '''	m := sklmapx.New[int, int]()
	for i := 0; i < 10; i++ {
		m.Set(2*i, i)
	}
	it := m.Iterator()
	it.Seek(10)
	it.Seek(11)
	if k, _, _ := it.Next(); k != 0 {
		fmt.Println("after a failed search the enumeration starts at", k)
		os.Exit(1)
	}''')),
]
