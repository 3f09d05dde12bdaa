package github.com/fizzbee-io/fizzbee/lib

// only C22
// C22: a record has one value per field; fields are kept in the order of their names.

macro rents(s) = s.entries
macro recOK(s) = s != nil && forall i int, j int {{s.entries[i].name, s.entries[j].name}} :: 0 <= i && i < j && j < len(s.entries) ==> s.entries[i].name < s.entries[j].name
macro hasField(s, n) = exists i int {{s.entries[i].name}} :: 0 <= i && i < len(s.entries) && s.entries[i].name == n

macro keepsField(b, c) = forall q int {{c.entries[q].name}} :: 0 <= q && q < len(c.entries) ==> forall j int {{b.entries[j].name}} :: 0 <= j && j < len(b.entries) && b.entries[j].name == c.entries[q].name ==> c.entries[q].value == b.entries[j].value
macro keepsOther(a, b, c) = forall q int {{c.entries[q].name}} :: 0 <= q && q < len(c.entries) ==> forall j int {{a.entries[j].name}} :: 0 <= j && j < len(a.entries) && a.entries[j].name == c.entries[q].name ==> c.entries[q].value == a.entries[j].value || hasField(b, a.entries[j].name)
macro hasAll(a, c) = forall j int {{a.entries[j].name}} :: 0 <= j && j < len(a.entries) ==> hasField(c, a.entries[j].name)

extern sort.Sort : data
  modifies elems(data.(entries))
  ensures forall i int {{data.(entries)[i].name}} :: 0 <= i && i < len(data.(entries)) ==> exists j int {{old(data.(entries)[j].name)}} :: 0 <= j && j < len(data.(entries)) && data.(entries)[i].name == old(data.(entries)[j].name) && data.(entries)[i].value == old(data.(entries)[j].value)
  ensures forall i int {{old(data.(entries)[i].name)}} :: 0 <= i && i < len(data.(entries)) ==> exists j int {{data.(entries)[j].name}} :: 0 <= j && j < len(data.(entries)) && data.(entries)[j].name == old(data.(entries)[i].name) && data.(entries)[j].value == old(data.(entries)[i].value)
  ensures forall i int, j int {{data.(entries)[i].name, data.(entries)[j].name}} :: 0 <= i && i < j && j < len(data.(entries)) ==> data.(entries)[i].name <= data.(entries)[j].name
  ensures (forall i int, j int {{old(data.(entries)[i].name), old(data.(entries)[j].name)}} :: 0 <= i && i < j && j < len(data.(entries)) ==> old(data.(entries)[i].name) != old(data.(entries)[j].name)) ==> forall i int, j int {{data.(entries)[i].name, data.(entries)[j].name}} :: 0 <= i && i < j && j < len(data.(entries)) ==> data.(entries)[i].name != data.(entries)[j].name

func (*Struct).Attr
  props C22
  requires recOK(s)
  modifies nothing
  loop 1
    invariant 0 <= i && i <= j && j <= n && n == len(s.entries)
    invariant [below] forall q int {{s.entries[q].name}} :: 0 <= q && q < i ==> s.entries[q].name < name
    invariant [above] forall q int {{s.entries[q].name}} :: j <= q && q < n ==> s.entries[q].name >= name
  ensures [found] forall q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) && s.entries[q].name == name ==> result0 == s.entries[q].value && result1 == nil
  ensures [missing] (forall q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) ==> s.entries[q].name != name) ==> result1 != nil && result0 == nil

func (*Struct).SetField
  props C22
  requires recOK(s)
  modifies s.entries, elems(s.entries)
  oncall sort.Sort [lemma-before] forall i int {{old(s.entries[i].name)}} :: 0 <= i && i < old(len(s.entries)) ==> s.entries[i].name == old(s.entries[i].name) && s.entries[i].value == old(s.entries[i].value)
  loop 1
    invariant [other] forall q int {{s.entries[q].name}} :: 0 <= q && q < $k ==> s.entries[q].name != name
  ensures [ok] result == nil
  ensures [record] recOK(s)
  ensures [set] exists q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) && s.entries[q].name == name && s.entries[q].value == val
  ensures [pos] len(s.entries) == old(len(s.entries)) ==> off(s.entries) == old(off(s.entries)) && arr(s.entries) == old(arr(s.entries)) && forall i int {{old(s.entries[i].name)}} :: 0 <= i && i < old(len(s.entries)) && old(s.entries[i].name) != name ==> s.entries[i].name == old(s.entries[i].name) && s.entries[i].value == old(s.entries[i].value)
  ensures [kept] len(s.entries) != old(len(s.entries)) ==> forall i int {{old(s.entries[i].name)}} :: 0 <= i && i < old(len(s.entries)) && old(s.entries[i].name) != name ==> exists q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) && s.entries[q].name == old(s.entries[i].name) && s.entries[q].value == old(s.entries[i].value)
  ensures [nothingelse] forall q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) && s.entries[q].name != name ==> exists i int {{old(s.entries[i].name)}} :: 0 <= i && i < old(len(s.entries)) && s.entries[q].name == old(s.entries[i].name) && s.entries[q].value == old(s.entries[i].value)

func (*Struct).AttrNames
  props C22
  requires s != nil
  modifies nothing
  loop 1
    invariant [names] forall q int {{names[q]}} :: 0 <= q && q < $k ==> names[q] == s.entries[q].name
  ensures [names] len(result) == len(s.entries) && forall q int {{result[q]}} :: 0 <= q && q < len(result) ==> result[q] == s.entries[q].name

func (*Struct).ToStringDict
  props C22
  requires recOK(s) && d != nil
  modifies map(d)
  loop 1
    invariant [done] forall q int {{s.entries[q].name}} :: 0 <= q && q < $k ==> s.entries[q].name in dom(d) && d[s.entries[q].name] == s.entries[q].value
    invariant [others] forall k string {{k in dom(d)}} {{d[k]}} :: (forall q int {{s.entries[q].name}} :: 0 <= q && q < $k ==> s.entries[q].name != k) ==> (k in dom(d) <==> entry(k in dom(d))) && d[k] == entry(d[k])
  ensures [all] forall q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) ==> s.entries[q].name in dom(d) && d[s.entries[q].name] == s.entries[q].value
  ensures [others] forall k string {{k in dom(d)}} {{d[k]}} :: (forall q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) ==> s.entries[q].name != k) ==> (k in dom(d) <==> old(k in dom(d))) && d[k] == old(d[k])

func FromStringDict
  props C22
  modifies nothing
  panics
  loop 1
    invariant fresh(s) && len(s.entries) == $k && fresh(arr(s.entries))
    invariant [keys] forall q int {{s.entries[q].name}} :: 0 <= q && q < $k ==> s.entries[q].name in dom(d) && s.entries[q].value == d[s.entries[q].name]
    invariant [inseen] forall q int {{s.entries[q].name}} :: 0 <= q && q < $k ==> s.entries[q].name in $seen
    invariant [distinct] forall i int, j int {{s.entries[i].name, s.entries[j].name}} :: 0 <= i && i < j && j < $k ==> s.entries[i].name != s.entries[j].name
    invariant [seen] forall k string {{k in $seen}} :: k in $seen ==> exists q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) && s.entries[q].name == k
  ensures [record] recOK(result) && fresh(result) && result.constructor == constructor
  ensures [values] forall q int {{result.entries[q].name}} :: 0 <= q && q < len(result.entries) ==> result.entries[q].name in dom(d) && result.entries[q].value == d[result.entries[q].name]
  ensures [all] d != nil ==> forall k string {{k in dom(d)}} :: k in dom(d) ==> exists q int {{result.entries[q].name}} :: 0 <= q && q < len(result.entries) && result.entries[q].name == k

func (*Struct).ReplaceEntriesFromStringDict
  props C22
  requires s != nil
  modifies s.entries
  loop 1
    invariant len(values) == $k && fresh(arr(values))
    invariant [keys] forall q int {{values[q].name}} :: 0 <= q && q < $k ==> values[q].name in dom(d) && values[q].value == d[values[q].name]
    invariant [inseen] forall q int {{values[q].name}} :: 0 <= q && q < $k ==> values[q].name in $seen
    invariant [distinct] forall i int, j int {{values[i].name, values[j].name}} :: 0 <= i && i < j && j < $k ==> values[i].name != values[j].name
    invariant [seen] forall k string {{k in $seen}} :: k in $seen ==> exists q int {{values[q].name}} :: 0 <= q && q < len(values) && values[q].name == k
  ensures [record] recOK(s)
  ensures [values] forall q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) ==> s.entries[q].name in dom(d) && s.entries[q].value == d[s.entries[q].name]
  ensures [all] d != nil ==> forall k string {{k in dom(d)}} :: k in dom(d) ==> exists q int {{s.entries[q].name}} :: 0 <= q && q < len(s.entries) && s.entries[q].name == k

extern starlark.Equal : x, y
  modifies nothing

func (*Struct).Binary
  props C22
  requires recOK(x) && (typeis(y, *Struct) ==> recOK(y.(*Struct)))
  modifies nothing
  panics
  loop 1
    invariant fresh(z) && z != nil
    invariant [two] recOK(x) && recOK(y) 
    invariant [done] forall q int {{x.entries[q].name}} :: 0 <= q && q < $k ==> x.entries[q].name in dom(z) && z[x.entries[q].name] == x.entries[q].value
    invariant [only] forall k string {{k in dom(z)}} :: k in dom(z) ==> exists q int {{x.entries[q].name}} :: 0 <= q && q < $k && x.entries[q].name == k
  loop 2
    invariant fresh(z) && z != nil
    invariant [two] recOK(x) && recOK(y)
    invariant [right] forall q int {{y.entries[q].name}} :: 0 <= q && q < $k ==> y.entries[q].name in dom(z) && z[y.entries[q].name] == y.entries[q].value
    invariant [leftin] forall q int {{x.entries[q].name}} :: 0 <= q && q < len(x.entries) ==> x.entries[q].name in dom(z)
    invariant [leftval] forall q int {{x.entries[q].name}} :: 0 <= q && q < len(x.entries) ==> z[x.entries[q].name] == x.entries[q].value || ($k > 0 && y.entries[$k-1].name == x.entries[q].name) || exists j int {{y.entries[j].name}} :: 0 <= j && j < $k - 1 && y.entries[j].name == x.entries[q].name
  ensures [record] typeis(result0, *Struct) ==> recOK(result0.(*Struct))
  ensures [allx] typeis(result0, *Struct) && !side ==> hasAll(x, result0.(*Struct))
  ensures [allxswapped] typeis(result0, *Struct) && side ==> hasAll(x, result0.(*Struct))
  ensures [ally] typeis(result0, *Struct) && !side ==> hasAll(y.(*Struct), result0.(*Struct))
  ensures [allyswapped] typeis(result0, *Struct) && side ==> hasAll(y.(*Struct), result0.(*Struct))
  ensures [right] typeis(result0, *Struct) && !side ==> keepsField(y.(*Struct), result0.(*Struct))
  ensures [swapped] typeis(result0, *Struct) && side ==> keepsField(x, result0.(*Struct))
  ensures [left] typeis(result0, *Struct) && !side ==> keepsOther(x, y.(*Struct), result0.(*Struct))
  ensures [swappedleft] typeis(result0, *Struct) && side ==> keepsOther(y.(*Struct), x, result0.(*Struct))

// what sort.Sort is given: the order of the names

func (entries).Len
  props C22
  modifies nothing
  ensures result == len(a)

func (entries).Less
  props C22
  requires 0 <= i && i < len(a) && 0 <= j && j < len(a)
  modifies nothing
  ensures result <==> a[i].name < a[j].name

func (entries).Swap
  props C22
  requires 0 <= i && i < len(a) && 0 <= j && j < len(a)
  modifies elems(a)
  ensures a[i].name == old(a[j].name) && a[i].value == old(a[j].value) && a[j].name == old(a[i].name) && a[j].value == old(a[i].value)
  ensures forall q int {{a[q].name}} :: 0 <= q && q < len(a) && q != i && q != j ==> a[q].name == old(a[q].name) && a[q].value == old(a[q].value)

extern starlark.EqualDepth : x, y, depth
  modifies nothing
  panics

func structsEqual
  props C22
  requires x != nil && y != nil
  modifies nothing
  panics
  loop 1
    invariant [names] forall q int {{x.entries[q].name}} :: 0 <= q && q < $k ==> x.entries[q].name == y.entries[q].name
  ensures [names] result0 ==> len(x.entries) == len(y.entries) && forall q int {{x.entries[q].name}} :: 0 <= q && q < len(x.entries) ==> x.entries[q].name == y.entries[q].name

func (*Struct).len
  props C22
  requires s != nil
  modifies nothing
  ensures result == len(s.entries)

// construction from keyword arguments


func FromKeywords
  props C22
  requires forall q int {{kwargs[q]}} :: 0 <= q && q < len(kwargs) ==> len(kwargs[q]) == 2 && typeis(kwargs[q][0], starlark.String)
  modifies nothing
  panics
  oncall sort.Sort [lemma-before] forall q int {{kwargs[q]}} :: 0 <= q && q < len(kwargs) ==> data.(entries)[q].name == kwargs[q][0].(starlark.String) && data.(entries)[q].value == kwargs[q][1]
  loop 1
    invariant fresh(s) && len(s.entries) == $k && fresh(arr(s.entries)) && s.constructor == constructor
    invariant [pairs] forall q int {{s.entries[q].name}} :: 0 <= q && q < $k ==> s.entries[q].name == kwargs[q][0].(starlark.String) && s.entries[q].value == kwargs[q][1]
  ensures [sorted] fresh(result) && forall i int, j int {{result.entries[i].name, result.entries[j].name}} :: 0 <= i && i < j && j < len(result.entries) ==> result.entries[i].name <= result.entries[j].name
  ensures [constructor] result.constructor == constructor && len(result.entries) == len(kwargs)
  ensures [given] forall q int {{result.entries[q].name}} :: 0 <= q && q < len(result.entries) ==> exists j int {{kwargs[j]}} :: 0 <= j && j < len(kwargs) && result.entries[q].name == kwargs[j][0].(starlark.String) && result.entries[q].value == kwargs[j][1]
  ensures [all] forall j int {{kwargs[j]}} :: 0 <= j && j < len(kwargs) ==> exists q int {{result.entries[q].name}} :: 0 <= q && q < len(result.entries) && result.entries[q].name == kwargs[j][0].(starlark.String) && result.entries[q].value == kwargs[j][1]

func Make
  props C22
  requires forall q int {{kwargs[q]}} :: 0 <= q && q < len(kwargs) ==> len(kwargs[q]) == 2 && typeis(kwargs[q][0], starlark.String)
  modifies nothing
  panics
  loop 1
    invariant 1 <= i
    invariant [apart] forall p int, q int {{s.entries[p].name, s.entries[q].name}} :: 0 <= p && p < q && q < i && q < len(s.entries) ==> s.entries[p].name < s.entries[q].name
  ensures [record] result1 == nil ==> typeis(result0, *Struct) && recOK(result0.(*Struct))
  ensures [all] result1 == nil ==> forall j int {{kwargs[j]}} :: 0 <= j && j < len(kwargs) ==> exists q int {{result0.(*Struct).entries[q].name}} :: 0 <= q && q < len(result0.(*Struct).entries) && result0.(*Struct).entries[q].name == kwargs[j][0].(starlark.String) && result0.(*Struct).entries[q].value == kwargs[j][1]
  ensures [given] result1 == nil ==> forall q int {{result0.(*Struct).entries[q].name}} :: 0 <= q && q < len(result0.(*Struct).entries) ==> exists j int {{kwargs[j]}} :: 0 <= j && j < len(kwargs) && result0.(*Struct).entries[q].name == kwargs[j][0].(starlark.String) && result0.(*Struct).entries[q].value == kwargs[j][1]
