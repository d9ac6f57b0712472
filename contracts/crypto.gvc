// Keys, texts and ciphertexts are byte strings (bytes2str: a slice's current content). The contracts of
// the cryptographic packages are assumed; their functions are uninterpreted but for the equations below.
package cryptox/aesx

// the system's source of randomness, and byte k of its i-th answer
fun entropy() fn
fun drawn(int, int) int
fun sha256(string) string
fun cbcenc(string, string, string) string
fun cbcdec(string, string, string) string
fun ctr(string, string, string) string
fun gcmseal(string, string, string, string) string
fun gcmopen(string, string, string, string) string
fun gcmvalid(string, string, string, string) bool
fun keyof(Iface) string
fun ivof(Iface) string
fun blockmode(Iface) int
fun isaead(Iface) bool
// how often a mode has been used
fun uses(Iface) *int

// what decryption undoes
axiom cbc: forall(string(k), string(v), string(d), imp(len(d) % 16 == 0, cbcdec(k, v, cbcenc(k, v, d)) == d && len(cbcenc(k, v, d)) == len(d)))
axiom cbclen: forall(string(k), string(v), string(d), len(cbcdec(k, v, d)) == len(d))
axiom ctr: forall(string(k), string(v), string(d), ctr(k, v, ctr(k, v, d)) == d && len(ctr(k, v, d)) == len(d))
axiom gcm: forall(string(k), string(v), string(d), string(a), gcmvalid(k, v, gcmseal(k, v, d, a), a) && gcmopen(k, v, gcmseal(k, v, d, a), a) == d && len(gcmseal(k, v, d, a)) == len(d) + 16)
axiom gcmauth: forall(string(k), string(v), string(c), string(a), imp(gcmvalid(k, v, c, a), gcmseal(k, v, gcmopen(k, v, c, a), a) == c && len(gcmopen(k, v, c, a)) == len(c) - 16))

extern crypto/rand.Read(b) (n, err)
  modifies elems(b), calls(entropy())
  ensures ncalls(entropy()) == old(ncalls(entropy())) + 1
  ensures err == nil && n == len(b)
  ensures forall(int(k), imp(0 <= k && k < len(b), b[k] == drawn(old(ncalls(entropy())), k)))

// reading from crypto/rand.Reader, the only reader used here
extern io.ReadFull(r, b) (n, err)
  requires r == rand.Reader
  modifies elems(b), calls(entropy())
  ensures ncalls(entropy()) == old(ncalls(entropy())) + 1
  ensures err == nil && n == len(b)
  ensures forall(int(k), imp(0 <= k && k < len(b), b[k] == drawn(old(ncalls(entropy())), k)))

extern crypto/sha256.Sum256(data) (r)
  modifies nothing
  ensures len(sha256(bytes2str(data))) == 32
  ensures forall(int(k), imp(0 <= k && k < 32, r[k] == sha256(bytes2str(data))[k]))

extern crypto/aes.NewCipher(key) (block, err)
  modifies nothing
  ensures iff(err == nil, len(key) == 16 || len(key) == 24 || len(key) == 32)
  ensures imp(err == nil, block != nil && keyof(block) == bytes2str(key))

invoke crypto/cipher.Block.BlockSize(b) (n)
  modifies nothing
  ensures n == 16

// modes 1 and 2: chaining, enciphering and deciphering; 3: counter
extern crypto/cipher.NewCBCEncrypter(block, iv) (m)
  requires block != nil && len(iv) == 16
  modifies nothing
  allocs int
  ensures m != nil && blockmode(m) == 1 && keyof(m) == keyof(block) && ivof(m) == bytes2str(iv) && fresh(uses(m)) && *uses(m) == 0

extern crypto/cipher.NewCBCDecrypter(block, iv) (m)
  requires block != nil && len(iv) == 16
  modifies nothing
  allocs int
  ensures m != nil && blockmode(m) == 2 && keyof(m) == keyof(block) && ivof(m) == bytes2str(iv) && fresh(uses(m)) && *uses(m) == 0

extern crypto/cipher.NewCTR(block, iv) (m)
  requires block != nil && len(iv) == 16
  modifies nothing
  allocs int
  ensures m != nil && blockmode(m) == 3 && keyof(m) == keyof(block) && ivof(m) == bytes2str(iv) && fresh(uses(m)) && *uses(m) == 0

// only the first use of a mode is described: later ones continue the chain
pred aligned(dst, src) := ref(dst) != ref(src) || off(dst) == off(src) || off(dst) + len(src) <= off(src) || off(src) + len(src) <= off(dst)

invoke crypto/cipher.BlockMode.CryptBlocks(m, dst, src)
  requires len(src) % 16 == 0 && len(src) <= len(dst) && aligned(dst, src)
  modifies elems(dst, 0, len(src)), *uses(m)
  ensures *uses(m) == old(*uses(m)) + 1
  ensures imp(old(*uses(m)) == 0 && blockmode(m) == 1, bytes2str(sl(dst, 0, len(src))) == cbcenc(keyof(m), ivof(m), old(bytes2str(src))))
  ensures imp(old(*uses(m)) == 0 && blockmode(m) == 2, bytes2str(sl(dst, 0, len(src))) == cbcdec(keyof(m), ivof(m), old(bytes2str(src))))

invoke crypto/cipher.Stream.XORKeyStream(m, dst, src)
  requires len(src) <= len(dst) && aligned(dst, src)
  modifies elems(dst, 0, len(src)), *uses(m)
  ensures *uses(m) == old(*uses(m)) + 1
  ensures imp(old(*uses(m)) == 0 && blockmode(m) == 3, bytes2str(sl(dst, 0, len(src))) == ctr(keyof(m), ivof(m), old(bytes2str(src))))

extern crypto/cipher.NewGCM(block) (a, err)
  requires block != nil
  modifies nothing
  ensures err == nil && a != nil && isaead(a) && keyof(a) == keyof(block)

invoke crypto/cipher.AEAD.NonceSize(a) (n)
  requires isaead(a)
  modifies nothing
  ensures n == 12

invoke crypto/cipher.AEAD.Overhead(a) (n)
  requires isaead(a)
  modifies nothing
  ensures n == 16

// the result is appended to dst: in dst's spare room if it is large enough
invoke crypto/cipher.AEAD.Seal(a, dst, nonce, plaintext, ad) (r)
  requires isaead(a) && len(nonce) == 12 && len(plaintext) < 1<<36
  requires ref(dst) == nil || ref(dst) != ref(plaintext) && ref(dst) != ref(ad)
  modifies elems(sl(dst, 0, cap(dst)), len(dst), cap(dst))
  allocs []byte
  ensures len(r) == len(dst) + len(plaintext) + 16 && cap(r) >= len(r)
  ensures forall(int(k), imp(0 <= k && k < len(dst), r[k] == old(dst[k])))
  ensures bytes2str(sl(r, len(dst), len(r))) == gcmseal(keyof(a), old(bytes2str(nonce)), old(bytes2str(plaintext)), old(bytes2str(ad)))
  ensures ite(old(len(dst)) + len(plaintext) + 16 <= cap(dst), ref(r) == ref(dst) && off(r) == off(dst), fresh(r))

invoke crypto/cipher.AEAD.Open(a, dst, nonce, ciphertext, ad) (r, err)
  requires isaead(a) && len(nonce) == 12
  requires ref(dst) == nil || ref(dst) != ref(ciphertext) && ref(dst) != ref(ad)
  modifies elems(sl(dst, 0, cap(dst)), len(dst), cap(dst))
  allocs []byte
  ensures iff(err == nil, gcmvalid(keyof(a), old(bytes2str(nonce)), old(bytes2str(ciphertext)), old(bytes2str(ad))))
  ensures imp(err != nil, ref(r) == nil && len(r) == 0)
  ensures imp(err == nil, len(r) == len(dst) + len(ciphertext) - 16 && len(ciphertext) >= 16 && cap(r) >= len(r))
  ensures imp(err == nil, forall(int(k), imp(0 <= k && k < len(dst), r[k] == old(dst[k]))))
  ensures imp(err == nil, bytes2str(sl(r, len(dst), len(r))) == gcmopen(keyof(a), old(bytes2str(nonce)), old(bytes2str(ciphertext)), old(bytes2str(ad))))
  ensures imp(err == nil, ite(len(dst) + len(ciphertext) - 16 <= cap(dst), ref(r) == ref(dst) && off(r) == off(dst), fresh(r)))

// the first n bytes of r are the answer of the source of randomness to the one request made
pred random(r, n) := ncalls(entropy()) == old(ncalls(entropy())) + 1 && forall(int(k), imp(0 <= k && k < n, r[k] == drawn(old(ncalls(entropy())), k)))
pred head(r, n) := bytes2str(sl(r, 0, n))
pred rest(r, n) := bytes2str(sl(r, n, len(r)))
pred derived(key) := sha256(bytes2str(key))

func EncryptCBC(data, key) (r, err)
  prop P26, P27
  modifies calls(entropy())
  allocs []byte
  ensures[refused] iff(err == nil, len(data) % 16 == 0)
  ensures[random] imp(err == nil, random(r, 16))
  ensures[text] imp(err == nil, len(r) == len(data) + 16 && rest(r, 16) == cbcenc(derived(key), head(r, 16), bytes2str(data)))
  ensures[own] imp(err == nil, fresh(r))

func DecryptCBC(data, key) (r, err)
  prop P26, P27
  modifies nothing
  allocs []byte
  ensures[refused] iff(err == nil, len(data) >= 16 && len(data) % 16 == 0)
  ensures[text] imp(err == nil, len(r) == len(data) - 16 && bytes2str(r) == cbcdec(derived(key), head(data, 16), rest(data, 16)))
  ensures[own] imp(err == nil, fresh(r))

func EncryptCTR(data, key) (r, err)
  prop P26, P27
  modifies calls(entropy())
  allocs []byte
  ensures[accepted] err == nil
  ensures[random] random(r, 16)
  ensures[text] len(r) == len(data) + 16 && rest(r, 16) == ctr(derived(key), head(r, 16), bytes2str(data))
  ensures[own] fresh(r)

func DecryptCTR(data, key) (r, err)
  prop P26, P27
  modifies nothing
  allocs []byte
  ensures[refused] iff(err == nil, len(data) >= 16)
  ensures[text] imp(err == nil, len(r) == len(data) - 16 && bytes2str(r) == ctr(derived(key), head(data, 16), rest(data, 16)))
  ensures[own] imp(err == nil, fresh(r))

func EncryptGCM(data, key) (r, err)
  prop P26, P27
  requires len(data) < 1<<36
  modifies calls(entropy())
  allocs []byte
  ensures[accepted] err == nil
  ensures[random] random(r, 12)
  ensures[text] len(r) == len(data) + 28 && rest(r, 12) == gcmseal(derived(key), head(r, 12), bytes2str(data), "")
  ensures[own] fresh(r)

func DecryptGCM(data, key) (r, err)
  prop P26, P27
  modifies nothing
  allocs []byte
  ensures[authentic] iff(err == nil, len(data) >= 12 && gcmvalid(derived(key), head(data, 12), rest(data, 12), ""))
  ensures[text] imp(err == nil, bytes2str(r) == gcmopen(derived(key), head(data, 12), rest(data, 12), ""))
  ensures[none] imp(err != nil, ref(r) == nil && len(r) == 0)

// what encrypting and then decrypting under the same key gives, by the two contracts
lemma roundtripCBC(key string, v string, d string, body string, out string)
  prop P26
  requires len(d) % 16 == 0
  requires body == cbcenc(sha256(key), v, d)
  requires out == cbcdec(sha256(key), v, body)
  ensures[back] out == d

lemma roundtripCTR(key string, v string, d string, body string, out string)
  prop P26
  requires body == ctr(sha256(key), v, d)
  requires out == ctr(sha256(key), v, body)
  ensures[back] out == d

lemma roundtripGCM(key string, v string, d string, body string, out string)
  prop P26
  requires body == gcmseal(sha256(key), v, d, "")
  requires out == gcmopen(sha256(key), v, body, "")
  ensures[accepted] gcmvalid(sha256(key), v, body, "")
  ensures[back] out == d

// accepted data is what encrypting the result under the same key and nonce gives: nothing altered is accepted
lemma authentic(key string, v string, body string, out string)
  prop P27
  requires gcmvalid(sha256(key), v, body, "")
  requires out == gcmopen(sha256(key), v, body, "")
  ensures[only] body == gcmseal(sha256(key), v, out, "")
