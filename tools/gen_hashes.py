#!/usr/bin/env python3
"""Writes spec/Hashes.tla (the constants of SHA-2 are computed from their definition)."""
import sys, os
from math import isqrt
def primes(n):
    r=[];k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def icbrt(n):
    lo,hi=0,1<<((n.bit_length()+2)//3+1)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**3<=n: lo=m
        else: hi=m-1
    return lo
P=primes(80)
K=[icbrt(p<<192)&((1<<64)-1) for p in P]
H=[isqrt(p<<128)&((1<<64)-1) for p in P[:8]]
limbs=lambda w,n:'<<'+', '.join(str((w>>(16*(n-1-i)))&65535) for i in range(n))+'>>'
tab=lambda L,n,per:',\n  '.join(', '.join(limbs(w,n) for w in L[i:i+per]) for i in range(0,len(L),per))
r1=[11,14,15,12,5,8,7,9,11,13,14,15,6,7,9,8, 7,6,8,13,11,9,7,15,7,12,15,9,11,7,13,12, 11,13,6,7,14,9,13,15,14,8,13,6,5,12,7,5, 11,12,14,15,14,15,9,8,9,14,5,6,8,6,5,12, 9,15,5,11,6,8,13,12,5,12,13,14,11,8,5,6]
r2=[8,9,9,11,13,15,15,5,7,7,8,11,14,14,12,6, 9,13,15,7,12,8,9,11,7,7,12,7,6,15,13,11, 9,7,15,11,8,6,6,14,12,13,5,14,13,13,7,5, 15,5,8,11,14,14,6,14,6,9,12,9,12,5,15,8, 8,5,12,9,12,5,14,6,8,13,6,5,15,13,11,11]
z1=[0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15, 7,4,13,1,10,6,15,3,12,0,9,5,2,14,11,8, 3,10,14,4,9,15,8,1,2,7,0,6,13,11,5,12, 1,9,11,10,0,8,12,4,13,3,7,15,14,5,6,2, 4,0,5,9,7,12,2,10,14,1,3,8,11,6,15,13]
z2=[5,14,7,0,9,2,11,4,13,6,15,8,1,10,3,12, 6,11,3,7,0,13,5,10,14,15,8,12,4,9,1,2, 15,5,1,3,7,14,6,9,11,8,12,2,10,0,4,13, 8,6,4,1,3,11,15,0,5,12,2,13,9,7,10,14, 12,15,10,4,1,5,8,7,6,2,13,14,0,3,9,11]
k1=[0,0x5A827999,0x6ED9EBA1,0x8F1BBCDC,0xA953FD4E]; k2=[0x50A28BE6,0x5C4DD124,0x6D703EF3,0x7A6D76E9,0]
ih=[0x67452301,0xEFCDAB89,0x98BADCFE,0x10325476,0xC3D2E1F0]
assert K[0]==0x428a2f98d728ae22 and H[0]==0x6a09e667f3bcc908
seq=lambda L:'<<'+', '.join(map(str,L))+'>>'
T=r'''------------------------------- MODULE Hashes -------------------------------
(***************************************************************************)
(* SHA-256, SHA-512, RIPEMD-160, HMAC-SHA512 and PBKDF2 (FIPS 180-4,       *)
(* RFC 2104, RFC 2898, and the RIPEMD-160 paper), on sequences of bytes.   *)
(* As in BigNat, the definitions have the suffix D and java/HashesOv.java  *)
(* evaluates the names without suffix; SelfTest.tla compares the two.      *)
(*                                                                         *)
(* A machine word is a big-endian sequence of 16-bit limbs.                *)
(* Generated by tools/gen_hashes.py.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

Limb == 65536
WXor(x, y) == [i \in DOMAIN x |-> x[i] ^^ y[i]]
WAnd(x, y) == [i \in DOMAIN x |-> x[i] & y[i]]
WOr(x, y)  == [i \in DOMAIN x |-> x[i] | y[i]]
WNot(x)    == [i \in DOMAIN x |-> (Limb - 1) - x[i]]

RECURSIVE WAddR(_, _, _)
WAddR(x, y, i) ==        \* <<carry, limbs i..Len>>
  IF i > Len(x) THEN <<0, <<>>>>
  ELSE LET t == WAddR(x, y, i + 1)
           s == x[i] + y[i] + t[1]
       IN  <<s \div Limb, <<s % Limb>> \o t[2]>>
WAdd(x, y) == WAddR(x, y, 1)[2]
WSum(ws) == FoldLeft(WAdd, Head(ws), Tail(ws))

(* x rotated right by n = 16*q + r bits, and x shifted right by n bits *)
WRotr(x, n) ==
  LET L == Len(x)  q == n \div 16  r == n % 16
      at(i) == x[((i - 1) % L) + 1]
  IN [i \in 1..L |->
        LET hi == at(i - q - 1 + 2 * L)  lo == at(i - q + 2 * L)
        IN  (lo \div 2^r) + ((hi % 2^r) * 2^(16 - r))]
WRotl(x, n) == WRotr(x, 16 * Len(x) - n)
WShr(x, n) ==
  LET L == Len(x)  q == n \div 16  r == n % 16
      at(i) == IF i < 1 THEN 0 ELSE x[i]
  IN [i \in 1..L |-> (at(i - q) \div 2^r) + ((at(i - q - 1) % 2^r) * 2^(16 - r))]

BytesToLimbs(b) == [i \in 1..(Len(b) \div 2) |-> b[2*i - 1] * 256 + b[2*i]]
LimbsToBytes(w) == [i \in 1..(2 * Len(w)) |->
                      IF i % 2 = 1 THEN w[(i + 1) \div 2] \div 256 ELSE w[i \div 2] % 256]
ZeroBytes(n) == [i \in 1..n |-> 0]

(* lengths below 2^28 bytes *)
BE4(n) == <<n \div 16777216, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>
LE4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>

----------------------------------------------------------------------------
(* SHA-2.  The SHA-256 constants are the first halves of the SHA-512 ones. *)
K512 == <<
  @@ >>
H512 == <<
  @@ >>
K256 == [i \in 1..64 |-> SubSeq(K512[i], 1, 2)]
H256 == [i \in 1..8 |-> SubSeq(H512[i], 1, 2)]

(* rot: the rotation amounts of the variant *)
Rot256 == [S0 |-> <<2, 13, 22>>, S1 |-> <<6, 11, 25>>, s0 |-> <<7, 18, 3>>, s1 |-> <<17, 19, 10>>]
Rot512 == [S0 |-> <<28, 34, 39>>, S1 |-> <<14, 18, 41>>, s0 |-> <<1, 8, 7>>, s1 |-> <<19, 61, 6>>]
BigS(x, a) == WXor(WXor(WRotr(x, a[1]), WRotr(x, a[2])), WRotr(x, a[3]))
SmallS(x, a) == WXor(WXor(WRotr(x, a[1]), WRotr(x, a[2])), WShr(x, a[3]))

Sha2Schedule(block, rounds, rot) ==
  LET ext(W, t) == Append(W, WSum(<<SmallS(W[t - 2], rot.s1), W[t - 7],
                                    SmallS(W[t - 15], rot.s0), W[t - 16]>>))
  IN  FoldLeft(ext, block, [i \in 1..(rounds - 16) |-> i + 16])

Sha2Round(s, k, w, rot) ==
  LET a == s[1] b == s[2] c == s[3] d == s[4] e == s[5] f == s[6] g == s[7] h == s[8]
      t1 == WSum(<<h, BigS(e, rot.S1), WXor(WAnd(e, f), WAnd(WNot(e), g)), k, w>>)
      t2 == WAdd(BigS(a, rot.S0), WXor(WXor(WAnd(a, b), WAnd(a, c)), WAnd(b, c)))
  IN  <<WAdd(t1, t2), a, b, c, WAdd(d, t1), e, f, g>>

Sha2Compress(H, block, K, rot) ==
  LET W == Sha2Schedule(block, Len(K), rot)
      rnd(s, t) == Sha2Round(s, K[t], W[t], rot)
      s == FoldLeft(rnd, H, [i \in 1..Len(K) |-> i])
  IN  [i \in 1..8 |-> WAdd(H[i], s[i])]

(* L limbs in a word: 2 for SHA-256, 4 for SHA-512; a block has 32*L bytes *)
Sha2(msg, L, H0, K, rot) ==
  LET B == 32 * L
      used == (Len(msg) + 9 + (IF L = 4 THEN 8 ELSE 0)) % B
      padded == msg \o <<128>> \o ZeroBytes((IF used = 0 THEN 0 ELSE B - used) + (IF L = 4 THEN 12 ELSE 4))
                    \o BE4(8 * Len(msg))
      word(i, j) == BytesToLimbs(SubSeq(padded, (i-1)*B + (j-1)*2*L + 1, (i-1)*B + j*2*L))
      comp(H, i) == Sha2Compress(H, [j \in 1..16 |-> word(i, j)], K, rot)
      H == FoldLeft(comp, H0, [i \in 1..(Len(padded) \div B) |-> i])
  IN  FlattenSeq([i \in 1..8 |-> LimbsToBytes(H[i])])

Sha256D(msg) == Sha2(msg, 2, H256, K256, Rot256)
Sha512D(msg) == Sha2(msg, 4, H512, K512, Rot512)

----------------------------------------------------------------------------
(* RIPEMD-160 *)
RmdR1 == @@
RmdR2 == @@
RmdZ1 == @@
RmdZ2 == @@
RmdK1 == << @@ >>
RmdK2 == << @@ >>
RmdH  == << @@ >>

RmdF(j, x, y, z) == CASE j = 1 -> WXor(WXor(x, y), z)
                      [] j = 2 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
                      [] j = 3 -> WXor(WOr(x, WNot(y)), z)
                      [] j = 4 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
                      [] j = 5 -> WXor(x, WOr(y, WNot(z)))

RmdLine(H, X, left) ==
  LET step(s, t) ==
        LET j == ((t - 1) \div 16) + 1
            f == RmdF(IF left THEN j ELSE 6 - j, s[2], s[3], s[4])
            x == X[(IF left THEN RmdZ1[t] ELSE RmdZ2[t]) + 1]
            k == IF left THEN RmdK1[j] ELSE RmdK2[j]
            r == IF left THEN RmdR1[t] ELSE RmdR2[t]
            n == WAdd(WRotl(WSum(<<s[1], f, x, k>>), r), s[5])
        IN  <<s[5], n, s[2], WRotl(s[3], 10), s[4]>>
  IN  FoldLeft(step, H, [i \in 1..80 |-> i])

Ripemd160D(msg) ==
  LET used == (Len(msg) + 9) % 64
      padded == msg \o <<128>> \o ZeroBytes(IF used = 0 THEN 0 ELSE 64 - used)
                    \o LE4(8 * Len(msg)) \o ZeroBytes(4)
      word(i, j) == LET o == (i-1)*64 + (j-1)*4 IN
                    <<padded[o+4] * 256 + padded[o+3], padded[o+2] * 256 + padded[o+1]>>
      comp(H, i) ==
        LET X == [j \in 1..16 |-> word(i, j)]
            a == RmdLine(H, X, TRUE)  b == RmdLine(H, X, FALSE)
        IN  <<WSum(<<H[2], a[3], b[4]>>), WSum(<<H[3], a[4], b[5]>>), WSum(<<H[4], a[5], b[1]>>),
              WSum(<<H[5], a[1], b[2]>>), WSum(<<H[1], a[2], b[3]>>)>>
      H == FoldLeft(comp, RmdH, [i \in 1..(Len(padded) \div 64) |-> i])
  IN  FlattenSeq([i \in 1..5 |-> Reverse(LimbsToBytes(H[i]))])

----------------------------------------------------------------------------
(* HMAC-SHA512 and PBKDF2 with it, one block of output (64 bytes) *)
BXor(a, b) == [i \in DOMAIN a |-> a[i] ^^ b[i]]
HmacSha512D(key, msg) ==
  LET k0 == IF Len(key) > 128 THEN Sha512D(key) ELSE key
      k == k0 \o ZeroBytes(128 - Len(k0))
  IN  Sha512D(BXor(k, [i \in 1..128 |-> 92]) \o Sha512D(BXor(k, [i \in 1..128 |-> 54]) \o msg))

Pbkdf2D(pw, salt, rounds) ==
  LET u1 == HmacSha512D(pw, salt \o <<0, 0, 0, 1>>)
      step(p, i) == LET u == HmacSha512D(pw, p[1]) IN <<u, BXor(p[2], u)>>
  IN  FoldLeft(step, <<u1, u1>>, [i \in 1..(rounds - 1) |-> i])[2]

----------------------------------------------------------------------------
Sha256(msg) == Sha256D(msg)
Sha512(msg) == Sha512D(msg)
Ripemd160(msg) == Ripemd160D(msg)
HmacSha512(key, msg) == HmacSha512D(key, msg)
Pbkdf2(pw, salt, rounds) == Pbkdf2D(pw, salt, rounds)
=============================================================================
'''
for v in (tab(K,4,4),tab(H,4,4),seq(r1),seq(r2),seq(z1),seq(z2),', '.join(limbs(x,2) for x in k1),', '.join(limbs(x,2) for x in k2),', '.join(limbs(x,2) for x in ih)):
    T=T.replace('@@',v,1)
assert '@@' not in T
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','spec','Hashes.tla'),'w').write(T)
