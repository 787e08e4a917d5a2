import types sdk/types

# membership as StringArray.Contains decides it (ASCII/Unicode case folding)
opaque foldIn(s, item) = exists i in 0..len(s): eqfold(item, s[i])

func (sdk/types.StringArray).Contains(s; item)(r)
  modular
  noevent
  returns foldIn(s, item)

target StringArray.HasAll
  fn (sdk/types.StringArray).HasAll(s; items)(r)
  panics C20
  ensures C33.hasall: len(items) > 0 ==> (r <=> (forall j in 0..len(items): foldIn(s, items[j])))
  ensures C33.hasall: len(items) == 0 ==> !r

target StringArray.HasOneOf
  fn (sdk/types.StringArray).HasOneOf(s; items)(r)
  panics C20
  ensures C33.hasoneof: r <=> (exists j in 0..len(items): foldIn(s, items[j]))

target StringArray.Contains
  fn (sdk/types.StringArray).Contains(s; item)(r)
  inline (sdk/types.StringArray).Contains
  panics C20
  ensures C33.contains: r <=> (exists i in 0..len(s): eqfold(item, s[i]))
  cover C33.contains: r
  cover C33.contains: !r

target types.SecureCompare
  fn sdk/types.SecureCompare(a, b)(r)
  panics C20
  ensures C33.securecompare: r <=> str(a) == str(b)

target types.SecureCompareString
  fn sdk/types.SecureCompareString(a, b)(r)
  panics C20
  ensures C33.securecompare: r <=> a == b

# Remove leaves no element that matches item, invents none, and keeps the others
func (*sdk/types.StringArray).Remove(s; item)()
  modular
  noevent
  requires s != nil
  modifies s
  ensures !foldIn(*s, item)
  ensures forall i in 0..len(*s): exists j in 0..old(len(*s)): (*s)[i] == old((*s)[j])

target StringArray.Remove
  reveal C33
  fn (*sdk/types.StringArray).Remove(s; item)()
  inline (*sdk/types.StringArray).Remove
  panics C20
  ensures C33.remove: !foldIn(*s, item)
  ensures C33.remove: forall i in 0..len(*s): exists j in 0..old(len(*s)): (*s)[i] == old((*s)[j])
  ensures C33.remove: forall j in 0..old(len(*s)): !eqfold(item, old((*s)[j])) ==> (exists i in 0..len(*s): (*s)[i] == old((*s)[j]))
  ensures C33.remove: len(*s) <= old(len(*s))
  ensures C33.remove: (forall i in 0..old(len(*s)): !eqfold(item, old((*s)[i]))) ==> len(*s) == old(len(*s)) && (forall i in 0..len(*s): (*s)[i] == old((*s)[i]))
