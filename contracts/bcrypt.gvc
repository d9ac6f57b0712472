package cryptox/bcryptx

fun crypted(string, string) bool
fun costof(string) int

// beyond 72 bytes bcrypt reads nothing (and later versions refuse): the contracts do not cover that
extern golang.org/x/crypto/bcrypt.GenerateFromPassword(pw, cost) (h, err)
  requires len(pw) <= 72
  modifies calls(entropy())
  allocs []byte
  ensures iff(err == nil, cost <= 31)
  ensures imp(err == nil, fresh(h) && crypted(bytes2str(h), bytes2str(pw)) && costof(bytes2str(h)) == ite(cost < 4, 10, cost))
  ensures err != ErrPasswordTooLong

extern golang.org/x/crypto/bcrypt.CompareHashAndPassword(h, pw) (err)
  requires len(pw) <= 72
  modifies nothing
  ensures iff(err == nil, crypted(bytes2str(h), bytes2str(pw)))
  ensures err != ErrPasswordTooLong

func Encrypt(pw) (r, err)
  prop P28
  modifies calls(entropy())
  allocs []byte
  ensures[long] iff(err == ErrPasswordTooLong, len(pw) > 72)
  ensures[accepted] iff(err == nil, len(pw) <= 72)
  ensures[matches] imp(err == nil, fresh(r) && crypted(bytes2str(r), bytes2str(pw)))
  ensures[cost] imp(err == nil, costof(bytes2str(r)) >= 10)
  ensures[none] imp(err != nil, ref(r) == nil && len(r) == 0)

func Decrypt(enc, pw) (ok, err)
  prop P28
  modifies nothing
  ensures[long] iff(err == ErrPasswordTooLong, len(pw) > 72)
  ensures[matches] iff(ok, len(pw) <= 72 && crypted(bytes2str(enc), bytes2str(pw)))
  ensures[error] iff(ok, err == nil)
