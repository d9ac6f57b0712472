package typex/convx

// decimal text of integers and floating-point numbers, and what a text denotes
fun itoa(int64) string
fun utoa(uint64) string
fun ftoa(float64) string
fun btoa(bool) string
fun atoi(string) int64
fun atou(string) uint64
fun atof(string) float64
fun atob(string) bool
fun nan(float64) bool
axiom itoa-atoi: forall(int64(x), atoi(itoa(x)) == x, trig(itoa(x)))
axiom utoa-atou: forall(uint64(x), atou(utoa(x)) == x, trig(utoa(x)))
axiom btoa-atob: atob(btoa(true)) && !atob(btoa(false))
axiom ftoa-atof: forall(float64(x), imp(!nan(x), atof(ftoa(x)) == x), trig(ftoa(x)))
axiom ftoa-atof32: forall(float32(x), imp(!nan(conv(float64, x)), conv(float32, atof(ftoa(conv(float64, x)))) == x), trig(ftoa(conv(float64, x))))

extern strconv.FormatInt(x, b) (s)
  requires b == 10
  ensures s == itoa(x)
extern strconv.FormatUint(x, b) (s)
  requires b == 10
  ensures s == utoa(x)
extern strconv.FormatFloat(x, f, p, n) (s)
  requires f == 102 && p == -1 && n == 64
  ensures s == ftoa(x)
extern strconv.FormatBool(x) (s)
  ensures s == btoa(x)
extern strconv.ParseInt(s, b, n) (x, err)
  requires b == 10 && n == 64
  ensures x == atoi(s)
extern strconv.ParseUint(s, b, n) (x, err)
  requires b == 10 && n == 64
  ensures x == atou(s)
extern strconv.ParseFloat(s, n) (x, err)
  requires n == 64
  ensures x == atof(s)
extern strconv.ParseBool(s) (x, err)
  ensures x == atob(s)

extern strconv.Itoa(x) (s)
  ensures s == itoa(x)
extern strconv.Atoi(s) (x, err)
  ensures x == atoi(s)

func integerToInteger(i) (r)
  prop P30
  inst T=int8 R=int8
  inst T=int8 R=int16
  inst T=int8 R=int32
  inst T=int8 R=int64
  inst T=int8 R=int
  inst T=int8 R=uint8
  inst T=int8 R=uint16
  inst T=int8 R=uint32
  inst T=int8 R=uint64
  inst T=int8 R=uint
  inst T=int8 R=float32
  inst T=int8 R=float64
  inst T=int16 R=int8
  inst T=int16 R=int16
  inst T=int16 R=int32
  inst T=int16 R=int64
  inst T=int16 R=int
  inst T=int16 R=uint8
  inst T=int16 R=uint16
  inst T=int16 R=uint32
  inst T=int16 R=uint64
  inst T=int16 R=uint
  inst T=int16 R=float32
  inst T=int16 R=float64
  inst T=int32 R=int8
  inst T=int32 R=int16
  inst T=int32 R=int32
  inst T=int32 R=int64
  inst T=int32 R=int
  inst T=int32 R=uint8
  inst T=int32 R=uint16
  inst T=int32 R=uint32
  inst T=int32 R=uint64
  inst T=int32 R=uint
  inst T=int32 R=float32
  inst T=int32 R=float64
  inst T=int64 R=int8
  inst T=int64 R=int16
  inst T=int64 R=int32
  inst T=int64 R=int64
  inst T=int64 R=int
  inst T=int64 R=uint8
  inst T=int64 R=uint16
  inst T=int64 R=uint32
  inst T=int64 R=uint64
  inst T=int64 R=uint
  inst T=int64 R=float32
  inst T=int64 R=float64
  inst T=int R=int8
  inst T=int R=int16
  inst T=int R=int32
  inst T=int R=int64
  inst T=int R=int
  inst T=int R=uint8
  inst T=int R=uint16
  inst T=int R=uint32
  inst T=int R=uint64
  inst T=int R=uint
  inst T=int R=float32
  inst T=int R=float64
  inst T=uint8 R=int8
  inst T=uint8 R=int16
  inst T=uint8 R=int32
  inst T=uint8 R=int64
  inst T=uint8 R=int
  inst T=uint8 R=uint8
  inst T=uint8 R=uint16
  inst T=uint8 R=uint32
  inst T=uint8 R=uint64
  inst T=uint8 R=uint
  inst T=uint8 R=float32
  inst T=uint8 R=float64
  inst T=uint16 R=int8
  inst T=uint16 R=int16
  inst T=uint16 R=int32
  inst T=uint16 R=int64
  inst T=uint16 R=int
  inst T=uint16 R=uint8
  inst T=uint16 R=uint16
  inst T=uint16 R=uint32
  inst T=uint16 R=uint64
  inst T=uint16 R=uint
  inst T=uint16 R=float32
  inst T=uint16 R=float64
  inst T=uint32 R=int8
  inst T=uint32 R=int16
  inst T=uint32 R=int32
  inst T=uint32 R=int64
  inst T=uint32 R=int
  inst T=uint32 R=uint8
  inst T=uint32 R=uint16
  inst T=uint32 R=uint32
  inst T=uint32 R=uint64
  inst T=uint32 R=uint
  inst T=uint32 R=float32
  inst T=uint32 R=float64
  inst T=uint64 R=int8
  inst T=uint64 R=int16
  inst T=uint64 R=int32
  inst T=uint64 R=int64
  inst T=uint64 R=int
  inst T=uint64 R=uint8
  inst T=uint64 R=uint16
  inst T=uint64 R=uint32
  inst T=uint64 R=uint64
  inst T=uint64 R=uint
  inst T=uint64 R=float32
  inst T=uint64 R=float64
  inst T=uint R=int8
  inst T=uint R=int16
  inst T=uint R=int32
  inst T=uint R=int64
  inst T=uint R=int
  inst T=uint R=uint8
  inst T=uint R=uint16
  inst T=uint R=uint32
  inst T=uint R=uint64
  inst T=uint R=uint
  inst T=uint R=float32
  inst T=uint R=float64
  inst T=float32 R=int8
  inst T=float32 R=int16
  inst T=float32 R=int32
  inst T=float32 R=int64
  inst T=float32 R=int
  inst T=float32 R=uint8
  inst T=float32 R=uint16
  inst T=float32 R=uint32
  inst T=float32 R=uint64
  inst T=float32 R=uint
  inst T=float32 R=float32
  inst T=float32 R=float64
  inst T=float64 R=int8
  inst T=float64 R=int16
  inst T=float64 R=int32
  inst T=float64 R=int64
  inst T=float64 R=int
  inst T=float64 R=uint8
  inst T=float64 R=uint16
  inst T=float64 R=uint32
  inst T=float64 R=uint64
  inst T=float64 R=uint
  inst T=float64 R=float32
  inst T=float64 R=float64
  modifies nothing
  ensures[go] r == conv(R, i)

func intToString(i) (s)
  prop P30
  inst T=int8
  inst T=int16
  inst T=int32
  inst T=int64
  inst T=int
  modifies nothing
  ensures[text] s == itoa(conv(int64, i))

func uintToString(i) (s)
  prop P30
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  modifies nothing
  ensures[text] s == utoa(conv(uint64, i))

func floatToString(i) (s)
  prop P30
  inst T=float32
  inst T=float64
  modifies nothing
  ensures[text] s == ftoa(conv(float64, i))

func stringToInteger(s) (r)
  prop P30
  inst T=int8
  inst T=int16
  inst T=int32
  inst T=int64
  inst T=int
  modifies nothing
  ensures[number] r == conv(T, atoi(s))
  given x T
  ensures[back] imp(s == itoa(conv(int64, x)), r == x)

func stringToUinteger(s) (r)
  prop P30
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  modifies nothing
  ensures[number] r == conv(T, atou(s))
  given x T
  ensures[back] imp(s == utoa(conv(uint64, x)), r == x)

func stringToFloat(s) (r)
  prop P30
  inst T=float32
  inst T=float64
  modifies nothing
  ensures[number] r == conv(T, atof(s))
  ensures[back] forall(T(x), imp(!nan(conv(float64, x)) && s == ftoa(conv(float64, x)), r == x))

func boolToInteger(b) (r)
  prop P30
  inst T=int8
  inst T=int16
  inst T=int32
  inst T=int64
  inst T=int
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  modifies nothing
  ensures[one] imp(b, r == 1) && imp(!b, r == 0)

func boolToFloat(b) (r)
  prop P30
  inst T=float32
  inst T=float64
  modifies nothing
  ensures[one] imp(b, r == conv(T, 1)) && imp(!b, r == conv(T, 0))

func boolToString(b) (s)
  prop P30
  modifies nothing
  ensures[text] s == btoa(b)

func stringToBool(s) (b)
  prop P30
  modifies nothing
  ensures[value] b == atob(s)
  ensures[back] forall(bool(x), imp(s == btoa(x), b == x))

func intToBool(i) (b)
  prop P30
  inst T=int8
  inst T=int16
  inst T=int32
  inst T=int64
  inst T=int
  inst T=uint8
  inst T=uint16
  inst T=uint32
  inst T=uint64
  inst T=uint
  modifies nothing
  ensures[nonzero] iff(b, i != 0)

func floatToBool(i) (b)
  prop P30
  inst T=float32
  inst T=float64
  modifies nothing
  ensures[nonzero] iff(b, !feq(i, conv(T, 0)))

func stringToString(s) (r)
  prop P30
  modifies nothing
  ensures[same] r == s

func boolToBool(s) (r)
  prop P30
  modifies nothing
  ensures[same] r == s

func bytesToBytes(s) (r)
  prop P30
  modifies nothing
  ensures[same] r == s

func runesToRunes(s) (r)
  prop P30
  modifies nothing
  ensures[same] r == s

func stringToBytes(s) (r)
  prop P30
  modifies nothing
  ensures[bytes] bytes2str(r) == s && fresh(r)

func bytesToString(b) (r)
  prop P30
  modifies nothing
  ensures[bytes] r == bytes2str(b)

