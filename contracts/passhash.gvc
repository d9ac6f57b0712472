// The stored record: a parameter byte, two little-endian 8-byte offsets (the ends of salt and hash), salt, hash.
package cryptox/passhashx/internal

pred le8(s, i) := s[i] + s[i+1] * (1<<8) + s[i+2] * (1<<16) + s[i+3] * (1<<24) + s[i+4] * (1<<32) + s[i+5] * (1<<40) + s[i+6] * (1<<48) + s[i+7] * (1<<56)
pred lo(s) := le8(s, 1)
pred hi(s) := le8(s, 9)
pred valid(s) := len(s) >= 17 && 17 <= lo(s) && lo(s) <= hi(s) && hi(s) <= len(s)
pred record(r, param, salt, hash) := len(r) >= 17 + len(salt) + len(hash) && r[0] == param && lo(r) == 17 + len(salt) && hi(r) == 17 + len(salt) + len(hash) && forall(int(k), imp(0 <= k && k < len(salt), r[17 + k] == salt[k])) && forall(int(k), imp(0 <= k && k < len(hash), r[17 + len(salt) + k] == hash[k]))

func PasswordHash.Vstruct_Validate(s) (ok)
  prop P25
  modifies nothing
  ensures[wellformed] iff(ok, valid(s))

func PasswordHash.Param(s) (r)
  prop P25
  requires len(s) >= 1
  modifies nothing
  ensures[first] r == s[0]

func PasswordHash.Salt(s) (r)
  prop P25
  requires valid(s)
  modifies nothing
  ensures[part] ref(r) == ref(s) && off(r) == off(s) + 17 && len(r) == lo(s) - 17

func PasswordHash.Hash(s) (r)
  prop P25
  requires valid(s)
  modifies nothing
  ensures[part] ref(r) == ref(s) && off(r) == off(s) + lo(s) && len(r) == hi(s) - lo(s)

func Serialize_PasswordHash(dst, param, salt, hash) (r)
  prop P25
  requires len(dst) >= 17 + len(salt) + len(hash) && ref(dst) != ref(salt) && ref(dst) != ref(hash)
  modifies elems(dst, 0, 17 + len(salt) + len(hash))
  ensures[same] ref(r) == ref(dst) && off(r) == off(dst) && len(r) == len(dst) && cap(r) == cap(dst)
  ensures[record] record(r, param, salt, hash)

func New_PasswordHash(param, salt, hash) (r)
  prop P25
  requires len(salt) < 1<<40 && len(hash) < 1<<40
  modifies nothing
  allocs []byte
  ensures[own] fresh(r) && len(r) == 17 + len(salt) + len(hash)
  ensures[record] record(r, param, salt, hash)

package cryptox/passhashx

fun argon(string, string, int, int, int, int) string
fun b64(*base64.Encoding, string) string
fun unb64(*base64.Encoding, string) string
fun isb64(*base64.Encoding, string) bool

axiom b64: forall(ref(e), string(d), isb64(e, b64(e, d)) && unb64(e, b64(e, d)) == d)

extern golang.org/x/crypto/argon2.IDKey(password, salt, time, memory, threads, keyLen) (r)
  requires time >= 1 && threads >= 1 && keyLen >= 1
  modifies nothing
  allocs []byte
  ensures fresh(r) && len(r) == keyLen && bytes2str(r) == argon(bytes2str(password), bytes2str(salt), time, memory, threads, keyLen)

extern crypto/subtle.ConstantTimeCompare(x, y) (r)
  modifies nothing
  ensures r == ite(bytes2str(x) == bytes2str(y), 1, 0)

extern encoding/base64.(*Encoding).EncodeToString(e, src) (s)
  modifies nothing
  ensures s == b64(e, bytes2str(src))

extern encoding/base64.(*Encoding).DecodeString(e, s) (r, err)
  modifies nothing
  allocs []byte
  ensures iff(err == nil, isb64(e, s))
  ensures imp(err == nil, fresh(r) && bytes2str(r) == unb64(e, s))
  ensures err != ErrInvalidPassHash && err != ErrUnknownAlgorithm && err != ErrHashMismatch

// cost parameters of the four records
pred passes(p) := ite(p == 0, 20, ite(p == 1, 32, ite(p == 2, 4, 8)))
pred memory(p) := ite(p == 0, 65536, ite(p == 1, 4096, ite(p == 2, 37888, 15360)))
pred lanes(p) := ite(p == 0, 4, 1)
pred digest(p, password, salt) := argon(password, salt, passes(p), memory(p), lanes(p), 32)

// the reading of a byte string as a record
pred at8(s, i) := s[i] + s[i+1] * (1<<8) + s[i+2] * (1<<16) + s[i+3] * (1<<24) + s[i+4] * (1<<32) + s[i+5] * (1<<40) + s[i+6] * (1<<48) + s[i+7] * (1<<56)
pred record(s) := len(s) >= 17 && 17 <= at8(s, 1) && at8(s, 1) <= at8(s, 9) && at8(s, 9) <= len(s)
pred saltof(s) := bytes2str(sl(s, 17, at8(s, 1)))
pred hashof(s) := bytes2str(sl(s, at8(s, 1), at8(s, 9)))
pred matches(s, password) := digest(s[0], bytes2str(password), saltof(s)) == hashof(s)

func Hash(password, level) (r, err)
  prop P24
  modifies calls(entropy())
  allocs []byte
  ensures[level] iff(err == nil, 1 <= level && level <= 4) && imp(err != nil, err == ErrInvalidSecurityLevel && ref(r) == nil)
  ensures[record] imp(err == nil, record(r) && r[0] == level - 1)
  ensures[salt] imp(err == nil, ncalls(entropy()) == old(ncalls(entropy())) + 1 && at8(r, 1) == 33 && forall(int(k), imp(0 <= k && k < 16, r[17 + k] == drawn(old(ncalls(entropy())), k))))
  ensures[matches] imp(err == nil, matches(r, password) && len(r) == 65)
  ensures[own] imp(err == nil, fresh(r))

func Verify(password, phash) (err)
  prop P24, P25
  modifies nothing
  allocs []byte
  ensures[malformed] iff(err == ErrInvalidPassHash, !record(phash))
  ensures[unknown] iff(err == ErrUnknownAlgorithm, record(phash) && phash[0] > 3)
  ensures[matches] iff(err == nil, record(phash) && phash[0] <= 3 && matches(phash, password))
  ensures[kinds] err == nil || err == ErrInvalidPassHash || err == ErrUnknownAlgorithm || err == ErrHashMismatch

pred url() := base64.RawURLEncoding

func HashBase64(password, level) (s, err)
  prop P24
  modifies calls(entropy())
  allocs []byte
  ensures[level] iff(err == nil, 1 <= level && level <= 4) && imp(err != nil, err == ErrInvalidSecurityLevel && len(s) == 0)
  ensures[encoded] imp(err == nil, isb64(url(), s) && b64(url(), unb64(url(), s)) == s)
  ensures[record] imp(err == nil, record(unb64(url(), s)) && unb64(url(), s)[0] == level - 1)
  ensures[salt] imp(err == nil, ncalls(entropy()) == old(ncalls(entropy())) + 1 && at8(unb64(url(), s), 1) == 33 && forall(int(k), imp(0 <= k && k < 16, unb64(url(), s)[17 + k] == drawn(old(ncalls(entropy())), k))))
  ensures[matches] imp(err == nil, matches(unb64(url(), s), password))

func VerifyBase64(password, s) (err)
  prop P24
  modifies nothing
  allocs []byte
  ensures[malformed] imp(isb64(url(), s), iff(err == ErrInvalidPassHash, !record(unb64(url(), s))))
  ensures[unknown] imp(isb64(url(), s), iff(err == ErrUnknownAlgorithm, record(unb64(url(), s)) && unb64(url(), s)[0] > 3))
  ensures[matches] iff(err == nil, isb64(url(), s) && record(unb64(url(), s)) && unb64(url(), s)[0] <= 3 && matches(unb64(url(), s), password))
