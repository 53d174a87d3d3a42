------------------------------ MODULE AesCheck ------------------------------
(* Checks Aes and Crypto themselves: known answers, and that decryption inverts
   encryption and unpadding padding.                                         *)
EXTENDS Crypto
VARIABLE n
\* some bytes
Bytes(k, m) == [i \in 1..m |-> ((i * 37) + (k * 101) + ((i * i) % 7)) % 256]
Init == n = 0
Next == n < 40 /\ n' = n + 1
Known == ExamplesOK
Inverse == \A m \in {"ecb", "cbc", "ctr"} : \A kl \in {16, 24, 32} :
             Decrypted(m, Bytes(n, kl), Encrypted(m, Bytes(n, kl), Bytes(n + 3, 16), Bytes(n + 1, n))) = << Bytes(n + 1, n) >>
Codes == \A m \in {n, n + 41} : \A b \in {0, 1} : Dec(Enc(Bytes(n, m), b), b) = << Bytes(n, m) >>
Padding == Unpad(Pad(Bytes(n, n))) = << Bytes(n, n) >>
=============================================================================
