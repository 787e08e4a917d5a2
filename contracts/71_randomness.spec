
# ---- random helpers shared by all goroutines ----
import randomness sdk/randomness

event RandInt63 = rand.Int63(recv; )(out0)
event RandUint32 = rand.Uint32(recv; )(out0)
event RandUint64 = rand.Uint64(recv; )(out0)
event RandInt31 = rand.Int31(recv; )(out0)
event RandInt = rand.Int(recv; )(out0)
event RandInt63n = rand.Int63n(recv; n)(out0)
event RandInt31n = rand.Int31n(recv; n)(out0)
event RandIntn = rand.Intn(recv; n)(out0)
event RandFloat64 = rand.Float64(recv; )(out0)
event RandFloat32 = rand.Float32(recv; )(out0)
event RandPerm = rand.Perm(recv; n)(out0)
event RandNormFloat64 = rand.NormFloat64(recv; )(out0)
event RandExpFloat64 = rand.ExpFloat64(recv; )(out0)
event RandShuffle = rand.Shuffle(recv; n, swap)()
event RandSeed = rand.Seed(recv; seed)()
event RandRead = rand.Read(recv; p)(out0, out1)

target randomness.Locked.Int63
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Int63()(n)
  locks C36
  ensures C36.value: 0 <= n
  ensures C36.source: count(RandInt63) == 1 && (exists e in RandInt63: n == e.out0)

target randomness.Locked.Uint32
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Uint32()(n)
  locks C36
  ensures C36.source: count(RandUint32) == 1 && (exists e in RandUint32: n == e.out0)

target randomness.Locked.Uint64
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Uint64()(n)
  locks C36
  ensures C36.source: count(RandUint64) == 1 && (exists e in RandUint64: n == e.out0)

target randomness.Locked.Int31
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Int31()(n)
  locks C36
  ensures C36.value: 0 <= n
  ensures C36.source: count(RandInt31) == 1 && (exists e in RandInt31: n == e.out0)

target randomness.Locked.Int
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Int()(n)
  locks C36
  ensures C36.value: 0 <= n
  ensures C36.source: count(RandInt) == 1 && (exists e in RandInt: n == e.out0)

target randomness.Locked.Int63n
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Int63n(n)(r)
  locks C36
  ensures C36.value: 0 <= r && r < n
  ensures C36.source: count(RandInt63n) == 1 && (exists e in RandInt63n: r == e.out0 && e.n == n)

target randomness.Locked.Int31n
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Int31n(n)(r)
  locks C36
  ensures C36.value: 0 <= r && r < n
  ensures C36.source: count(RandInt31n) == 1 && (exists e in RandInt31n: r == e.out0 && e.n == n)

target randomness.Locked.Intn
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Intn(n)(r)
  locks C36
  ensures C36.value: 0 <= r && r < n
  ensures C36.source: count(RandIntn) == 1 && (exists e in RandIntn: r == e.out0 && e.n == n)

target randomness.Locked.Float64
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Float64()(n)
  locks C36
  ensures C36.source: count(RandFloat64) == 1 && (exists e in RandFloat64: n == e.out0)

target randomness.Locked.Float32
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Float32()(n)
  locks C36
  ensures C36.source: count(RandFloat32) == 1 && (exists e in RandFloat32: n == e.out0)

target randomness.Locked.Perm
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Perm(n)(r)
  locks C36
  ensures C36.value: len(r) == n
  ensures C36.source: count(RandPerm) == 1 && (exists e in RandPerm: e.n == n)

target randomness.Locked.NormFloat64
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call NormFloat64()(n)
  locks C36
  ensures C36.source: count(RandNormFloat64) == 1 && (exists e in RandNormFloat64: n == e.out0)

target randomness.Locked.ExpFloat64
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call ExpFloat64()(n)
  locks C36
  ensures C36.source: count(RandExpFloat64) == 1 && (exists e in RandExpFloat64: n == e.out0)

target randomness.Locked.Shuffle
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Shuffle(n, swap)
  locks C36
  ensures C36.source: count(RandShuffle) == 1 && (exists e in RandShuffle: e.n == n)

target randomness.Locked.Seed
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Seed(seed)
  locks C36
  ensures C36.source: count(RandSeed) == 1 && (exists e in RandSeed: e.seed == seed)

target randomness.Locked.Read
  new sdk/randomness.NewLockedRand(seed0)(lr)
  call Read(p)(n, err)
  locks C36
  ensures C36.value: err == nil && n == len(p)
  ensures C36.source: count(RandRead) == 1 && (exists e in RandRead: n == e.out0)

target randomness.Int63
  fn sdk/randomness.Int63()(n)
  locks C36
  ensures C36.value: 0 <= n
  ensures C36.source: count(RandInt63) == 1 && (exists e in RandInt63: n == e.out0)

target randomness.Uint32
  fn sdk/randomness.Uint32()(n)
  locks C36
  ensures C36.source: count(RandUint32) == 1 && (exists e in RandUint32: n == e.out0)

target randomness.Uint64
  fn sdk/randomness.Uint64()(n)
  locks C36
  ensures C36.source: count(RandUint64) == 1 && (exists e in RandUint64: n == e.out0)

target randomness.Int31
  fn sdk/randomness.Int31()(n)
  locks C36
  ensures C36.value: 0 <= n
  ensures C36.source: count(RandInt31) == 1 && (exists e in RandInt31: n == e.out0)

target randomness.Int
  fn sdk/randomness.Int()(n)
  locks C36
  ensures C36.value: 0 <= n
  ensures C36.source: count(RandInt) == 1 && (exists e in RandInt: n == e.out0)

target randomness.Int63n
  fn sdk/randomness.Int63n(n)(r)
  locks C36
  ensures C36.value: 0 <= r && r < n
  ensures C36.source: count(RandInt63n) == 1 && (exists e in RandInt63n: r == e.out0 && e.n == n)

target randomness.Int31n
  fn sdk/randomness.Int31n(n)(r)
  locks C36
  ensures C36.value: 0 <= r && r < n
  ensures C36.source: count(RandInt31n) == 1 && (exists e in RandInt31n: r == e.out0 && e.n == n)

target randomness.Intn
  fn sdk/randomness.Intn(n)(r)
  locks C36
  ensures C36.value: 0 <= r && r < n
  ensures C36.source: count(RandIntn) == 1 && (exists e in RandIntn: r == e.out0 && e.n == n)

target randomness.Float64
  fn sdk/randomness.Float64()(n)
  locks C36
  ensures C36.source: count(RandFloat64) == 1 && (exists e in RandFloat64: n == e.out0)

target randomness.Float32
  fn sdk/randomness.Float32()(n)
  locks C36
  ensures C36.source: count(RandFloat32) == 1 && (exists e in RandFloat32: n == e.out0)

target randomness.Perm
  fn sdk/randomness.Perm(n)(r)
  locks C36
  ensures C36.value: len(r) == n
  ensures C36.source: count(RandPerm) == 1 && (exists e in RandPerm: e.n == n)

target randomness.NormFloat64
  fn sdk/randomness.NormFloat64()(n)
  locks C36
  ensures C36.source: count(RandNormFloat64) == 1 && (exists e in RandNormFloat64: n == e.out0)

target randomness.ExpFloat64
  fn sdk/randomness.ExpFloat64()(n)
  locks C36
  ensures C36.source: count(RandExpFloat64) == 1 && (exists e in RandExpFloat64: n == e.out0)

target randomness.Shuffle
  fn sdk/randomness.Shuffle(n, swap)
  locks C36
  ensures C36.source: count(RandShuffle) == 1 && (exists e in RandShuffle: e.n == n)
