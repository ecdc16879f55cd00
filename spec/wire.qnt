// Wire format of recorded traces.
//
// One event = one unbounded integer made of NW words of WB bits each (little
// endian).  Word 0 is the operation code, word 1 the number of payload words,
// the rest the payload.  A payload word carries a real number in the fixed-point
// scale of fx.qnt (offset by 2^(WB-1) so that it is non-negative), a plain
// integer, or one of the sentinels below.
module wire {
  import fx.* from "./fx"
  pure val WB: int = 320
  pure val OFFS: int = 2^319
  // sentinels, far outside the range of representable payload values
  pure val NAN: int = 2^310
  pure val PINF: int = 2^311
  pure val NINF: int = -(2^311)
  pure val EXC: int = 2^312     // the call raised an exception
  pure val NONE: int = 2^313    // absent

  pure def isNum(x: int): bool = x > -(2^300) and x < 2^300
  pure def word(ev: int, k: int): int = (ev / 2^(320 * k)) % (2^320)
  pure def payload(ev: int): List[int] =
    range(0, word(ev, 1)).foldl([], (acc, k) => acc.append(word(ev, k + 2) - OFFS))
  // exact integer carried in the fixed-point scale
  pure def asInt(x: int): int = fdiv(x, S)
  pure def allNum(w: List[int]): bool = w.foldl(true, (acc, x) => acc and isNum(x))
}
