// Harness for the in-memory storage provider.
package main

import (
	"errors"
	"strings"

	spi "github.com/trustbloc/kms-go/spi/storage"

	"github.com/trustbloc/vc-go/internal/vsym"
	"github.com/trustbloc/vc-go/legacy/mem"
)

func main() {
	vsym.Main(map[string]func(){"History": History, "Query": Query, "Wide": Wide, "Names": Names, "Refused": Refused})
}

const letters = "a-dA-D"

type entry struct {
	key  string
	val  []byte
	tags []spi.Tag
}

// model is the reference: the last write to a key wins.
type model []entry

func (m model) find(key string) (entry, bool) {
	for i := len(m) - 1; i >= 0; i-- {
		if m[i].key == key {
			return m[i], m[i].val != nil
		}
	}
	return entry{}, false
}

func open(p spi.Provider, name string) spi.Store {
	s, err := p.OpenStore(name)
	vsym.Assert(err == nil && s != nil, "a named store opens")
	return s
}

func sameTags(a, b []spi.Tag) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range a {
		ok = vsym.And(ok, a[i].Name == b[i].Name, a[i].Value == b[i].Value)
	}
	return ok
}

// History: a run of operations, then every kind of read.
func History() {
	s := open(mem.NewProvider(), "s")
	var m model
	n := vsym.Param("ops", 3)
	for i := 0; i < n; i++ {
		k := vsym.Str(1, letters)
		switch vsym.Choice(4) {
		case 0:
			e := entry{k, vsym.Bytes(1), []spi.Tag{{Name: vsym.Str(1, letters), Value: vsym.Str(1, letters)}}}
			vsym.Assert(s.Put(e.key, e.val, e.tags...) == nil, "a write succeeds")
			m = append(m, e)
		case 1:
			e := entry{key: k, val: []byte{}}
			vsym.Assert(s.Put(e.key, e.val) == nil, "a write of nothing succeeds")
			m = append(m, e)
		case 2:
			vsym.Assert(s.Delete(k) == nil, "a removal succeeds")
			m = append(m, entry{key: k})
		case 3:
			k2 := vsym.Str(1, letters)
			a, b := entry{k, vsym.Bytes(1), []spi.Tag{{Name: "t", Value: vsym.Str(1, letters)}}}, entry{key: k2, val: vsym.Bytes(1)}
			if vsym.Choice(2) == 1 {
				b.val = nil
			}
			vsym.Assert(s.Batch([]spi.Operation{{Key: a.key, Value: a.val, Tags: a.tags}, {Key: b.key, Value: b.val}}) == nil, "a batch succeeds")
			m = append(m, a, b)
		}
	}
	q := vsym.Str(1, letters)
	want, there := m.find(q)
	got, err := s.Get(q)
	tags, terr := s.GetTags(q)
	if !there {
		vsym.Reach("absent")
		vsym.Assert(errors.Is(err, spi.ErrDataNotFound) && errors.Is(terr, spi.ErrDataNotFound), "a missing key is reported as missing")
	} else {
		vsym.Reach("present")
		vsym.Assert(err == nil && string(got) == string(want.val), "a read returns the last write")
		vsym.Assert(terr == nil && sameTags(tags, want.tags), "the tags are those of the last write")
	}
	bulk, err := s.GetBulk(q, "zz", q)
	vsym.Assert(err == nil && len(bulk) == 3, "a bulk read answers every key")
	vsym.Assert(bulk[1] == nil && (bulk[0] != nil) == there && (bulk[2] != nil) == there, "only missing keys read as nothing")
	if there {
		vsym.Assert(string(bulk[0]) == string(want.val) && string(bulk[2]) == string(want.val), "a bulk read returns the last writes in order")
	}
}

type cond struct{ name, value string }

func (c cond) text() string {
	if c.value == "" {
		return c.name
	}
	return c.name + ":" + c.value
}

func (c cond) holds(tags []spi.Tag) bool {
	ok := false
	for _, t := range tags {
		ok = vsym.Or(ok, vsym.And(t.Name == c.name, vsym.Or(c.value == "", t.Value == c.value)))
	}
	return ok
}

// Query: entries with any tags, an expression of one or two conditions.
func Query() {
	s := open(mem.NewProvider(), "s")
	n := 1 + vsym.Choice(vsym.Param("entries", 2))
	var es []entry
	for i := 0; i < n; i++ {
		e := entry{key: string(rune('k' + i)), val: vsym.Bytes(1)}
		for j := vsym.Choice(3 - min(i, 1)); j > 0; j-- {
			e.tags = append(e.tags, spi.Tag{Name: vsym.Str(1, "aA"), Value: vsym.Str(1, "xX")})
		}
		vsym.Assert(s.Put(e.key, e.val, e.tags...) == nil, "a write succeeds")
		es = append(es, e)
	}
	if vsym.Choice(2) == 1 { // the first entry is written again with other tags
		es[0].tags = []spi.Tag{{Name: vsym.Str(1, "aA"), Value: "x"}}
		vsym.Assert(s.Put(es[0].key, es[0].val, es[0].tags...) == nil, "a write succeeds")
	}
	var cs []cond
	for i := 1 + vsym.Choice(2); i > 0; i-- {
		cs = append(cs, cond{vsym.Str(1, "aA"), vsym.Str(vsym.Choice(2), "xX")})
	}
	if ask(s, es, cs) {
		vsym.Reach("found")
	} else {
		vsym.Reach("not found")
	}
}

// Wide: more conditions, more entries, and tag values that begin one another.
func Wide() {
	s := open(mem.NewProvider(), "s")
	var es []entry
	var cs []cond
	switch vsym.Choice(3) {
	case 0: // three or four conditions
		e := entry{key: "k", val: vsym.Bytes(1)}
		for j := 1 + vsym.Choice(3); j > 0; j-- {
			e.tags = append(e.tags, spi.Tag{Name: vsym.Str(1, "abc"), Value: "x"})
		}
		es = append(es, e)
		for i := 3 + vsym.Choice(2); i > 0; i-- {
			cs = append(cs, cond{vsym.Str(1, "abc"), ""})
		}
	case 1: // names and values of several letters
		es = append(es, entry{"k", vsym.Bytes(1), []spi.Tag{{Name: vsym.Str(1+vsym.Choice(2), "aA"), Value: vsym.Str(vsym.Choice(3), "xX")}}})
		cs = append(cs, cond{vsym.Str(1+vsym.Choice(2), "aA"), vsym.Str(vsym.Choice(3), "xX")})
	case 2: // many results
		for i := 2 + vsym.Choice(vsym.Param("many", 3)); i > 0; i-- {
			es = append(es, entry{string(rune('k' + i)), vsym.Bytes(1), []spi.Tag{{Name: vsym.Str(1, "ab")}}})
		}
		cs = append(cs, cond{"a", ""})
	}
	for _, e := range es {
		vsym.Assert(s.Put(e.key, e.val, e.tags...) == nil, "a write succeeds")
	}
	if ask(s, es, cs) {
		vsym.Reach("found")
	} else {
		vsym.Reach("not found")
	}
}

// ask queries the store holding es for the conditions, checks the answer, and says whether anything was found.
func ask(s spi.Store, es []entry, cs []cond) bool {
	expr := cs[0].text()
	for _, c := range cs[1:] {
		expr += "&&" + c.text()
	}
	it, err := s.Query(expr)
	vsym.Assert(err == nil, "a query succeeds")
	vsym.Assert(s.Delete(es[0].key) == nil, "a removal succeeds") // the iterator is a snapshot
	got := map[string]int{}
	for {
		more, err := it.Next()
		vsym.Assert(err == nil, "stepping succeeds")
		if !more {
			break
		}
		k, e1 := it.Key()
		v, e2 := it.Value()
		t, e3 := it.Tags()
		vsym.Assert(e1 == nil && e2 == nil && e3 == nil, "an entry can be read")
		got[k]++
		for _, e := range es {
			if e.key == k {
				vsym.Assert(string(v) == string(e.val) && sameTags(t, e.tags), "a found entry is the stored one")
			}
		}
	}
	total, err := it.TotalItems()
	vsym.Assert(err == nil && total == len(got), "the number of results is the number of entries found")
	for _, e := range es {
		want := true
		for _, c := range cs {
			want = vsym.And(want, c.holds(e.tags))
		}
		vsym.Assert(vsym.Iff(want, got[e.key] == 1), "exactly the entries with every asked tag are found")
		if got[e.key] == 1 {
			continue
		}
		vsym.Assert(got[e.key] == 0, "an entry is found once")
	}
	_, e1 := it.Key()
	_, e2 := it.Value()
	_, e3 := it.Tags()
	vsym.Assert(e1 != nil && e2 != nil && e3 != nil, "nothing can be read after the last entry")
	vsym.Assert(it.Close() == nil, "an iterator closes")
	return total > 0
}

// Names: stores are told apart by name, whatever the case, and closing one empties it alone.
func Names() {
	p := mem.NewProvider()
	a, b := vsym.Str(1+vsym.Choice(2), letters), vsym.Str(1+vsym.Choice(2), letters)
	same := strings.EqualFold(a, b)
	sa, sb := open(p, a), open(p, b)
	v, w := vsym.Bytes(1), vsym.Bytes(1)
	_, err := p.GetStoreConfig(a + "z")
	vsym.Assert(errors.Is(err, spi.ErrStoreNotFound), "a store never opened has no configuration")
	vsym.Assert(errors.Is(p.SetStoreConfig(a+"z", spi.StoreConfiguration{TagNames: []string{"t"}}), spi.ErrStoreNotFound), "and takes none")
	vsym.Assert(p.SetStoreConfig(strings.ToUpper(a), spi.StoreConfiguration{TagNames: []string{"ta"}}) == nil, "a configuration is taken")
	cfg, err := p.GetStoreConfig(b)
	vsym.Assert(err == nil && (len(cfg.TagNames) == 1 && cfg.TagNames[0] == "ta") == same, "a configuration belongs to its store")
	if vsym.Choice(3) == 0 { // an empty store is closed
		vsym.Assert(sa.Close() == nil, "close")
		_, err = p.GetStoreConfig(a)
		vsym.Assert(errors.Is(err, spi.ErrStoreNotFound), "a closed store has no configuration")
		vsym.Assert(len(p.GetOpenStores()) == 1 || same, "and is not open")
		vsym.Assert(len(p.GetOpenStores()) == 0 || !same, "and is not open")
		open(p, a)
		cfg, err = p.GetStoreConfig(a)
		vsym.Assert(err == nil && len(cfg.TagNames) == 0, "a store opened again starts with an empty configuration")
		return
	}
	vsym.Assert(sa.Put("k", v) == nil, "write")
	vsym.Assert(sa.Flush() == nil, "flush")
	vsym.Assert(p.Ping() == nil, "ping")
	got, err := sb.Get("k")
	if same {
		vsym.Reach("same")
		vsym.Assert(err == nil && string(got) == string(v), "one store under both names")
		vsym.Assert(len(p.GetOpenStores()) == 1, "one open store")
	} else {
		vsym.Reach("different")
		vsym.Assert(errors.Is(err, spi.ErrDataNotFound), "stores do not share entries")
		vsym.Assert(len(p.GetOpenStores()) == 2, "two open stores")
	}
	vsym.Assert(sb.Put("k", w) == nil, "write")
	if vsym.Choice(2) == 1 {
		vsym.Assert(p.Close() == nil, "close")
		_, err = open(p, b).Get("k")
		vsym.Assert(errors.Is(err, spi.ErrDataNotFound), "a closed provider forgets everything")
		return
	}
	vsym.Assert(sa.Close() == nil, "close")
	_, err = open(p, a).Get("k")
	vsym.Assert(errors.Is(err, spi.ErrDataNotFound), "a closed store forgets its entries")
	if !same {
		got, err = open(p, b).Get("k")
		vsym.Assert(err == nil && string(got) == string(w), "closing a store leaves the others alone")
	}
}

// Refused: requests that are not valid change nothing.
func Refused() {
	s := open(mem.NewProvider(), "s")
	v := vsym.Bytes(1)
	vsym.Assert(s.Put("k", v, spi.Tag{Name: "n", Value: "v"}) == nil, "write")
	name, val := vsym.Str(vsym.Choice(3), "ab:"), vsym.Str(vsym.Choice(3), "ab:")
	bad := strings.Contains(name, ":") || strings.Contains(val, ":")
	var err error
	switch vsym.Choice(9) {
	case 0:
		err = s.Put("k", []byte("new"), spi.Tag{Name: "ok"}, spi.Tag{Name: name, Value: val})
		vsym.Assert((err != nil) == bad, "a tag with a colon is refused, any other is not")
		if err == nil {
			vsym.Reach("accepted")
			it, err := s.Query(name + ":" + val)
			vsym.Assert(err == nil, "a stored tag can be asked for")
			n, _ := it.TotalItems()
			vsym.Assert(n == 1 || name == "", "and is found")
			return
		}
	case 1:
		err = s.Put("", []byte("x"))
	case 2:
		err = s.Put("k", nil)
	case 3:
		err = s.Delete("")
	case 4:
		err = s.Batch(nil)
	case 5:
		err = s.Batch([]spi.Operation{{Key: "k"}, {Key: "", Value: []byte("x")}})
	case 6:
		_, err = s.GetBulk()
		if err != nil {
			_, err = s.GetBulk("k", "")
		}
		if err != nil {
			_, err = s.Get("")
		}
		if err != nil {
			_, err = s.GetTags("")
		}
	case 7:
		_, err = s.Query([]string{"", "a:b:c", "n:v&&a:b:c"}[vsym.Choice(3)])
	case 8:
		if vsym.Choice(2) == 0 {
			_, err = s.Query("n", spi.WithInitialPageNum(1+vsym.Choice(2)))
		} else {
			_, err = s.Query("n", spi.WithSortOrder(&spi.SortOptions{TagName: "n"}))
		}
	}
	vsym.Assert(err != nil, "an invalid request is refused")
	vsym.Reach("refused")
	got, err := s.Get("k")
	vsym.Assert(err == nil && string(got) == string(v), "a refused request changes nothing")
	it, err := s.Query("n:v")
	vsym.Assert(err == nil, "query")
	n, _ := it.TotalItems()
	vsym.Assert(n == 1, "a refused request changes no tags")
}
