From 179922705e8e7d1baca3e598ab0bb4b84202ccab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:31 +0000
Subject: [PATCH 01/45] fix: ChaCha refuses to run past its 32-bit block
 counter

The counter word was incremented without bound, so block 2^32 and later were
computed from a state word wider than 32 bits and produced a malformed key
stream instead of an error.
---
 cipher/chacha_poly.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 7ec1698..c566b32 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -177,6 +177,8 @@ class ChaCha(object):
 
         # Word 12 is a block counter.  Since each block is 64-byte, a 32-bit
         # word is enough for 256 gigabytes of data.
+        if not 0 <= block_counter <= 0xFFFFFFFF:
+            raise ValueError('ChaCha block counter is not a 32-bit integer')
         self.state[12] = block_counter
 
         # Words 13-15 are a nonce, which should not be
@@ -206,7 +208,9 @@ class ChaCha(object):
         if remainder > 0:
             blocks += 1
 
-        counter = self.state[12]
+        # the block counter is one 32-bit word, it must not wrap around
+        if self.state[12] + blocks > 0x100000000:
+            raise ValueError('ChaCha block counter exhausted')
         encrypted_message = []
 
         for j in range(blocks):
-- 
2.43.0


From 520f6bfd3c4971d6d8b64f7bfb2214d8e3abf517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:31 +0000
Subject: [PATCH 02/45] fix: ChaCha replaces only an absent nonce with a random
 one

An empty nonce was silently replaced by a random one, which made an AEAD
message undecryptable, where every other wrong nonce length is refused.
---
 cipher/chacha_poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index c566b32..b452d37 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -232,7 +232,7 @@ class ChaCha(object):
 
     def __init__(self, key, counter=0, nonce=None):
         """ Random nonce if not provided. """
-        if not nonce:
+        if nonce is None:
             nonce = urandom(12)
         
         self.initialize( key, counter, nonce )
-- 
2.43.0


From 09ed857806486f57a8bdcffeac1286314cd90d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:31 +0000
Subject: [PATCH 03/45] fix: ChaCha20_AEAD.decrypt calculates the tag over the
 cipher text

It authenticated the decrypted text instead of the received cipher text, so the
returned tag never matched the tag of the message (RFC 7539, 2.8).
---
 cipher/chacha_poly.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index b452d37..163fdd7 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -557,8 +557,12 @@ class ChaCha20_AEAD(object):
         return (cipher_text, tag)
     
     def decrypt(self, aad, iv, cipher_text):
-        """ decrypt is same as encrypt """
-        return self.encrypt(aad, iv, cipher_text)
+        """ Returns the plain text and the tag calculated over the received
+            cipher text, for comparison with the received tag.
+        """
+        plain_text, _ = self.encrypt(aad, iv, cipher_text) # same key stream
+        _, tag = self.encrypt(aad, iv, plain_text)
+        return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
     """ """
-- 
2.43.0


From 12b6e62526091612994605d53a816817821bb570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:01 +0000
Subject: [PATCH 04/45] fix: ChaCha_Poly_AEAD encrypts, decrypts and rejects
 forged messages

super() without arguments fails in Python 2, tag_length was undefined, the iv
was not separated from the message and the plain text was never returned.
---
 cipher/chacha_poly.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 163fdd7..2081cab 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -565,16 +565,27 @@ class ChaCha20_AEAD(object):
         return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
-    """ """
+    """ AEAD with one message string:  iv | cipher_text | tag """
+    tag_length = 16
+
     def encrypt(self, aad, iv, plain_text):
-        cipher_text, tag = super().encrypt(aad, iv, plain_text)
+        cipher_text, tag = ChaCha20_AEAD.encrypt(self, aad, iv, plain_text)
         return iv + cipher_text + tag
     
     def decrypt(self, aad, iv_cipher_text_tag):
-        iv = iv_cipher_text_tag[0:]
-        tag = iv_cipher_text_tag[-tag_length:]
-        plain_text, calculated_tag = super().encrypt(aad, iv, plain_text)
-        assert tag == calculated_tag
+        """ Returns the plain text of an authentic message,
+            raises ValueError for any other message.
+        """
+        iv_length = 12 - len(self.constant)
+        if len(iv_cipher_text_tag) < iv_length + self.tag_length:
+            raise ValueError('message is too short')
+        iv = iv_cipher_text_tag[:iv_length]
+        cipher_text = iv_cipher_text_tag[iv_length:-self.tag_length]
+        tag = iv_cipher_text_tag[-self.tag_length:]
+        plain_text, calculated_tag = ChaCha20_AEAD.decrypt(self, aad, iv, cipher_text)
+        if tag != calculated_tag:
+            raise ValueError('message is not authentic')
+        return plain_text
 
 
     """
-- 
2.43.0


From 3bfbf2da82c1559a013895301e75d86f758159fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:52 +0000
Subject: [PATCH 05/45] fix: b27decode, b85decode and b94decode honour padto

The argument was ignored, so octet strings with leading zero octets could not
be recovered.
---
 cipher/encoding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cipher/encoding.py b/cipher/encoding.py
index 01e50a8..a580f3a 100644
--- a/cipher/encoding.py
+++ b/cipher/encoding.py
@@ -68,7 +68,7 @@ def b27encode(octet_string):
     
 def b27decode(text_string, padto=None):
     """Decode a text string 's' using 27 characters. """
-    return base_N_decode(text_string, _b27chars )
+    return base_N_decode(text_string, _b27chars, padto )
 
 _b85chars = "0123456789" \
             "ABCDEFGHIJKLMNOPQRSTUVWXYZ" \
@@ -85,7 +85,7 @@ def b85encode(octet_string):
 
 def b85decode(text_string, padto=None):
     """Decode a text string 's' using 85 character alphabet. """
-    return base_N_decode(text_string, _b85chars )
+    return base_N_decode(text_string, _b85chars, padto )
     
 ascii_printable = ''.join( [chr(i) for i in range(33,127)] )    
 def b94encode(octet_string):
@@ -94,7 +94,7 @@ def b94encode(octet_string):
 
 def b94decode(text_string, padto=None):
     """Decode a text string using all ASCII non-space printable characters. """
-    return base_N_decode(text_string, ascii_printable )    
+    return base_N_decode(text_string, ascii_printable, padto )    
     
 if __name__ == '__main__':
     """ Examples of text encodings for 128 bit and 48 bits (USID and SID)
-- 
2.43.0


From f82cfed8ba4f87bf93844106d52e654b429fec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:52 +0000
Subject: [PATCH 06/45] fix: AES-CMAC subkeys are always one block long

A subkey with a leading zero octet came out short and aes_cmac failed for about
one key in 128.
---
 cipher/aes_cmac.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 55b1610..99e0817 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -54,8 +54,8 @@ def subkey(key, CIPH=AES):
     else:      # xor only if high bit set
         k2 = ((k1<<1) & 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF) ^ 0x87 
 
-    k1 = int_to_string(k1)
-    k2 = int_to_string(k2)
+    k1 = int_to_string(k1, padto=block_size)
+    k2 = int_to_string(k2, padto=block_size)
     return k1, k2
 
 def pad(octet_string, block_size=16):
-- 
2.43.0


From 6fb6b5c3467471b70b3537988f95d0c1cf305bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:52 +0000
Subject: [PATCH 07/45] fix: aes_cmac derives its subkeys with the cipher it
 was given

---
 cipher/aes_cmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/aes_cmac.py b/cipher/aes_cmac.py
index 99e0817..d92f462 100644
--- a/cipher/aes_cmac.py
+++ b/cipher/aes_cmac.py
@@ -22,7 +22,7 @@ def aes_cmac(key, M, CIPH=AES):
     block_size = ciph.block_size
     assert block_size == 16 # only 128 bit (16 octet) blocks supported!!
     
-    k1, k2 = subkey(key)
+    k1, k2 = subkey(key, CIPH)
     blocks, leftover = divmod(len(M), block_size)
   
     if leftover == 0 and blocks > 0:         # if last block is a complete block
-- 
2.43.0


From 21d1817f9b7eb78d2519d6e67f22b77d3bc2d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:52 +0000
Subject: [PATCH 08/45] fix: siv_decrypt raises a real exception for a forged
 message

String exceptions are a TypeError since Python 2.6.
---
 cipher/aes_siv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cipher/aes_siv.py b/cipher/aes_siv.py
index e9d1775..358d5c4 100755
--- a/cipher/aes_siv.py
+++ b/cipher/aes_siv.py
@@ -94,7 +94,7 @@ def siv_decrypt(key, encrypted_string, ad_list):
     if t == iv:
         return pt
     else:
-        raise 'SIV Integrity Check Error'
+        raise ValueError('SIV Integrity Check Error')
 
 class AES_SIV(object):
     """ An object wrapper for AES-SIV """
-- 
2.43.0


From fff0e7c048b47e92e7a7620d80cbd483d2285039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 09/45] fix: HMAC pads a hashed long key to the block size

RFC 2104 appends zeros to the hash of a key longer than one block as well.
---
 hash/hmac.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/hmac.py b/hash/hmac.py
index d13b4ac..089a724 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,9 +45,9 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
-            key = self.H(key)   # humm... this is odd, hash can be smaller than B
-        else:                   # should raise error on short key, but breaks tests :-(
-            key =key + (self.B-len(key)) * chr(0)
+            key = self.H(key)
+        # should raise error on short key, but breaks tests :-(
+        key =key + (self.B-len(key)) * chr(0)
         self.k_xor_ipad = ''.join([chr(ord(bchar)^0x36) for bchar in key])
         self.k_xor_opad = ''.join([chr(ord(bchar)^0x5C) for bchar in key])
         self.keyed = 1
-- 
2.43.0


From d3aa2cee19461b67f240aafe063dc7782b01368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 10/45] fix: pbkdf2 counts its blocks with an integer

range() refuses the float that ceil() returns.
---
 hash/pbkdf2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/pbkdf2.py b/hash/pbkdf2.py
index 848d325..4661d41 100755
--- a/hash/pbkdf2.py
+++ b/hash/pbkdf2.py
@@ -22,7 +22,7 @@ def pbkdf2(password, salt, iterations, keySize, PRF=HMAC_SHA1):
 		raise 'keySize too long for PBKDF2'
 
 	prf = PRF(key=password)  # HMAC_SHA1
-	numBlocks = ceil(1.*keySize/prf.digest_size) # ceiling function
+	numBlocks = int(ceil(1.*keySize/prf.digest_size)) # ceiling function
 	key = ''
 	for block in range(1,numBlocks+1):
 		# Calculate F(P, salt, iterations, i)
-- 
2.43.0


From 9ba8082389a978a43a6f0de5b13b2d19cd646c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 11/45] fix: prf_dot11 imports the standard hmac module

Inside the hash package 'import hmac' found hash/hmac.py.
---
 hash/prf_dot11.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hash/prf_dot11.py b/hash/prf_dot11.py
index c5c5c66..3a3c72b 100755
--- a/hash/prf_dot11.py
+++ b/hash/prf_dot11.py
@@ -7,6 +7,7 @@ The parameter 'prefix' is a string that shall be a unique label for each
 different purpose of the PRF.
 """
 
+from __future__ import absolute_import # hmac is the standard module, not hash/hmac.py
 import hmac, sha        # available in any Python 2.x
 
 def PRF( key, prefix, data, number_of_bits):
-- 
2.43.0


From 9c36f955292f39d9f0c7d97e876c5ed8a25a741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 12/45] fix: TKIP_Mixer remembers which packet number its phase
 1 key is for

After setPnBytes and setKey or setTA the phase 1 key belonged to the new packet
number but was still taken for the one of the old, and newKey used it there.
---
 hash/tkip_key_mixing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 3a748b1..8b9b6a1 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -56,6 +56,7 @@ class TKIP_Mixer:
         # for readability of subroutines, make tk a list of 1 octet ints
         self.tk = [ord(byte) for byte in key]
         if self.ta != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn)
 
     def setTA(self, taBytes):
@@ -63,6 +64,7 @@ class TKIP_Mixer:
         if len(taBytes) != 6: raise 'Bad size for transmitterAddress'
         self.ta = [ord(byte) for byte in taBytes]
         if self.tk != None : # reset phase1 value
+            self.upper4SequenceOctets = self.pnBytes[-4:]
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn )
 
     def setPnBytes(self, pnBytes):
-- 
2.43.0


From d8745dc7f8e5241ce69beab4a76d181e8e52f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 13/45] fix: GFp.is_element uses the field's own p, and zero is
 an element

---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 9abfa2a..fec6c0b 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -26,7 +26,7 @@ class GFp:
         return Element_of_GFp(self, value)
         
     def is_element(self, x):
-        return (p > x > 0)
+        return (self.p > x >= 0)
         
     def inverse(self, x):
         return inverse_mod(x, self.p)
-- 
2.43.0


From 8233461ad91d08ee77cbd9b1f1af2b0db198e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 14/45] fix: GF(p) division by a negative integer

egcd returned -1 as the greatest common divisor of a negative number.
---
 fmath/galoisfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index fec6c0b..c5947e2 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -93,7 +93,7 @@ def egcd(a, b):
         return (g, x - (b // a) * y, y)
 
 def inverse_mod(a, m):
-    g, x, y = egcd(a, m)
+    g, x, y = egcd(a % m, m)
     if g != 1:
         raise Exception('modular inverse does not exist')
     else:
-- 
2.43.0


From 4992c3e17ae854ed59002a41095b8011cad38458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 15/45] fix: GF(p) exponentiation reduces modulo p, takes
 negative exponents and **

x^-1 went through a float, x^(p-2) never finished for a cryptographic p, and the
documented ** was missing.
---
 fmath/galoisfield.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index c5947e2..090e710 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -31,6 +31,11 @@ class GFp:
     def inverse(self, x):
         return inverse_mod(x, self.p)
 
+    def power(self, x, e):
+        if e < 0:
+            return pow(self.inverse(x), -e, self.p)
+        return pow(x, e, self.p)
+
 
 class Element_of_GFp:
     """ Elements in a Galois Field that support operator overloading
@@ -67,10 +72,13 @@ class Element_of_GFp:
         return self.gf(int(other) * self.gf.inverse(self.value))
     
     def __xor__(self, other):
-        return self.gf(self.value ** int(other))
+        return self.gf(self.gf.power(self.value, int(other)))
     
     def __rxor__(self, other):
-        return self.gf(int(other) ** self.value)
+        return self.gf(self.gf.power(int(other), self.value))
+
+    __pow__ = __xor__
+    __rpow__ = __rxor__
     
     def __cmp__(self, other):
         if self.value == int(other) :
-- 
2.43.0


From 720b5d32d6e19d3122e22c58562856c7e3e93007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 16/45] fix: the functions of analysis.permutation can be
 called

They took the permutation where a method has its instance.
---
 analysis/permutation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/analysis/permutation.py b/analysis/permutation.py
index 3b01743..afbf208 100644
--- a/analysis/permutation.py
+++ b/analysis/permutation.py
@@ -7,6 +7,7 @@
 
 class permutation(object):
 
+    @staticmethod
     def map_orbits_of_permutation(permutation):
         """ Creates a dictionary of permutation orbits indexed by the first element of the cycle/orbit """
         gdict = {}     # a dictionary of the orbits indexed by the first orbit element
@@ -28,10 +29,11 @@ class permutation(object):
                 pass
         return gdict
 
-    def orbit_start_and_length(permutation):
+    @classmethod
+    def orbit_start_and_length(cls, permutation):
         """ Returns a list of tuples (orbit start, orbit size) """
         v=[]
-        z=map_orbits_of_permutation(permutation)
+        z=cls.map_orbits_of_permutation(permutation)
         for i in z.keys():
             v.append( [i, len(z[i])] )
         return v
@@ -108,7 +110,7 @@ sms4_sbbytes = (0xd6,0x90,0xe9,0xfe,0xcc,0xe1,0x3d,0xb7,
 
 
 def main():
-    orbit_tuples = orbit_start_and_length(aes_sbbytes)
+    orbit_tuples = permutation.orbit_start_and_length(aes_sbbytes)
     print
     print 'The AES sbox contains ',
     print len(orbit_tuples),
@@ -116,7 +118,7 @@ def main():
     print 'The AES sbox subgroups (start, length) are:'
     print orbit_tuples
     print
-    orbit_tuples = orbit_start_and_length(sms4_sbbytes)
+    orbit_tuples = permutation.orbit_start_and_length(sms4_sbbytes)
     print 'The SMS4 sbox contains ',
     print len(orbit_tuples),
     print 'permutation subgroups'
-- 
2.43.0


From 89b07529c23eb6b03697abfeabdbf544a1822af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:12 +0000
Subject: [PATCH 17/45] fix: order_mod of an x that is not reduced modulo m

For x = 1 (mod m) other than 1 itself the result was 2 instead of 1.
---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 3b9fc68..62bd411 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -446,7 +446,7 @@ def order_mod( x, m ):
     
     assert gcd( x, m ) == 1
     
-    z = x
+    z = x % m
     result = 1
     while z != 1:
         z = ( z * x ) % m
-- 
2.43.0


From ee66c3f5bb7c65cd485ade9b523088976a058523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 18/45] fix: negation of a Weierstrass point

The identity could not be negated, and the y of -P was a negative integer, so
-P never compared equal to the same point reached by other operations.
---
 ecc/ecc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index e51ac1a..56a7965 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -62,7 +62,9 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
 
     def negate(curve, point):
         """ Negate a point """
-        return curve.point( point.x, -point.y )
+        if point == curve.IDENTITY:
+            return point
+        return curve.point( point.x, -point.y % curve.p )
 
     def double_point(curve, point):
         """Return a new point that is twice the old (X9.62 B.3)."""
-- 
2.43.0


From 58c9ff9924fb97e0c7158186a595b7f43e3a7193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 19/45] fix: doubling of the identity and of points of order
 two

Both failed in the modular inverse or on None instead of giving the identity.
---
 ecc/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 56a7965..f4e6707 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -71,6 +71,8 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         p = curve.p; a = curve.a; inv = curve.inverse
         x = point.x; y = point.y
 
+        if point == curve.IDENTITY or y % p == 0: # y == 0 has order two
+            return curve.IDENTITY
         l = ( (3*x*x + a) * inv(2*y) ) % p
         x3 = (l*l - 2*x) % p
         y3 = (l * (x - x3) - y) % p
-- 
2.43.0


From a67234b2435523b99fcce21e03f6c537e1adbbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 20/45] fix: scalar multiples of points outside the subgroup of
 the generator

The scalar was reduced modulo n, the order of the generator, which is wrong for
a point of any other order (small subgroup points of a curve with a cofactor).
---
 ecc/ecc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index f4e6707..22e5bba 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -88,15 +88,17 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
             return result / 2
 
         e = scalar
-        e = e % point.curve.n
         if e == 0:
             return INFINITY
         if point == INFINITY:
             return INFINITY
+        if e < 0:
+            e = -e
+            point = -point
         assert e > 0
 
         e3 = 3 * e
-        negative_self = curve.point( point.x, -point.y )
+        negative_self = -point
         i = leftmost_bit( e3 ) / 2
         result = point
         while i > 1:
-- 
2.43.0


From b6589c21cf890f3f2bf65637303989b4ee11821d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 21/45] fix: Edwards curves

The curve equation in on_curve missed a factor y, the identity was (0,-1) instead
of (0,1), -P was not reduced and scalar_multiple called a function that does not
exist, so no Edwards curve could be created or used.
---
 ecc/ecc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 22e5bba..2722167 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -149,7 +149,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
         #return  (a*x**2 + y*y - 1 - d*x*x*y*y)  % p == 0
         xx = x*x
-        return  (a*xx - 1 + y*(1 - d*xx*y))  % p == 0
+        return  (a*xx - 1 + y*(y - d*xx*y))  % p == 0
 
     def add_points(curve, p1, p2):
         """ Add two points on the curve """
@@ -163,7 +163,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def negate(curve, p):
         """ Negate a point """
-        return curve.point(-p.x, p.y)
+        return curve.point(-p.x % curve.p, p.y)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old """
@@ -178,9 +178,11 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
         return curve.point(x2, y2)
 
     def scalar_multiple(curve, point, scalar):
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
         if scalar == 0:
             return curve.IDENTITY
-        q = curve.scalarmult(point, scalar/2)
+        q = curve.scalar_multiple(point, scalar/2)
         q = q + q
         if scalar & 1:
             q = q + point
@@ -188,7 +190,7 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
 
     def identity(curve):
         """ The additive identity """
-        return curve.point(0,-1)
+        return curve.point(0,1)
 
 class EdwardsCurveFp( TwistedEdwardsCurveFp ):
     """ An Edwards curve is a Twisted Edwards curve with a = 1
-- 
2.43.0


From 60b8eac933bf891e08cd83e68a3c366c91be04fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 22/45] fix: Montgomery curves

The identity was (0,-1), which is not on the curve, so none could be created.
P + -P returned P or failed, -P negated the wrong coordinate, and points of order
two and negative scalars were not handled.
---
 ecc/ecc.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 2722167..20f3d01 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -206,6 +206,8 @@ class MontgomeryCurveFp( EllipticCurveFp ):
     """
     def on_curve(curve, g):
         """ Is the point 'g' on the curve? """
+        if g == curve.IDENTITY: # point at infinity
+            return True
         x = g.x; y = g.y; a = curve.a; p = curve.p; x_sqrd = x*x
 
         return (y*y) % p == (x*x_sqrd + a*x_sqrd + x) % p
@@ -221,11 +223,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         a = curve.a; p = curve.p; inv = curve.inverse
 
         if x1 == x2:
-            if y1 == y2:
-                return p1.double()
+            if (y1 + y2) % p == 0:
+                return curve.IDENTITY
             else:
-                assert y1 + y2 == 0
-                return p1
+                return p1.double()
         l = (y2-y1)*inv(x2-x1)
         x3 = l**2 - a - x1 - x2
         y3 = l*(x1 - x3) - y1
@@ -233,7 +234,9 @@ class MontgomeryCurveFp( EllipticCurveFp ):
 
     def negate(curve, p1):
         """ Negate a point """
-        return curve.point(-p1.x % p, p1.y)
+        if p1 == curve.IDENTITY:
+            return p1
+        return curve.point(p1.x, -p1.y % curve.p)
 
     def double_point(curve, point):
         """ Return a new point that is twice the old
@@ -241,12 +244,16 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         x1 = point.x; y1 = point.y; a = curve.a; inv = curve.inverse
         p = curve.p
 
+        if point == curve.IDENTITY or y1 % p == 0: # y == 0 has order two
+            return curve.IDENTITY
         l = (3*x1*x1 + 2*a*x1 + 1)*inv(2*y1)
         x3 = l*l - a - 2*x1
         y3 = l*(x1 - x3) - y1
         return curve.point(x3 % p, y3 % p)
 
     def scalar_multiple(curve, point, scalar):
+        if scalar < 0:
+            return curve.scalar_multiple(-point, -scalar)
         if scalar == 0:
             return curve.IDENTITY
         q = curve.scalar_multiple(point, scalar/2)
@@ -256,8 +263,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         return q
 
     def identity(curve):
-        """ The additive identity """
-        return curve.point(0,-1)
+        """ The additive identity, the point at infinity. It is required
+            by the 'on_curve' check so validate is disabled.
+        """
+        return curve.point(None, None, validate=False)
 
     def montgomery_ladder(curve, scalar, point):
         """ Scalar multiplication on a Montgomery curve
-- 
2.43.0


From ccc6f55f89615f44c482d971466f12cabb9520b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 23/45] fix: the Montgomery ladders

Nothing was reduced modulo p, so they did not finish on a real curve, scalars of
more than 255 bits were cut off, and montgomery_ladder2 used an undefined x_1, a
wrong start value and a wrong inverse.
---
 ecc/ecc.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 20f3d01..a423df9 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -273,16 +273,17 @@ class MontgomeryCurveFp( EllipticCurveFp ):
         """
         x1 = point.x; a = curve.a; p = curve.p
 
+        scalar = abs(scalar) # x is the same for P and -P
         x2,z2,x3,z3 = 1, 0, point.x, 1
-        for i in reversed(range(255)):
+        for i in reversed(range(scalar.bit_length())):
             bit = 1 & (scalar >> i)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-            x3, z3 = ((x2*x3 - z2*z3)**2,  x1*(x2*z3 - z2*x3)**2)
-            x2, z2 = ((x2**2 - z2**2)**2,  4*x2*z2*(x2**2 + a*x2*z2+z2**2))
+            x3, z3 = ((x2*x3 - z2*z3)**2 % p,  x1*(x2*z3 - z2*x3)**2 % p)
+            x2, z2 = ((x2**2 - z2**2)**2 % p,  4*x2*z2*(x2**2 + a*x2*z2+z2**2) % p)
             x2, x3 = cswap(x2, x3, bit)
             z2, z3 = cswap(z2, z3, bit)
-        return ( x2*z2**(p-2) ) % p
+        return ( x2*pow(z2, p-2, p) ) % p
 
     def montgomery_ladder2(curve, scalar, point):
         """
@@ -291,9 +292,10 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             plus common-subexpression elimination, plus assumption Z1=1.
         """
         x1 = point.x; a = curve.a; p = curve.p
-        a24 = (a - 2) / 4
-        x_2, z_2, x_3, z_3 = 0, 1, x_1, 1
-        for t in reversed(range(255)):
+        a24 = (a - 2) * curve.inverse(4) % p
+        scalar = abs(scalar) # x is the same for P and -P
+        x_2, z_2, x_3, z_3 = 1, 0, x1, 1
+        for t in reversed(range(scalar.bit_length())):
             s_t = 1 & (scalar >> t)
             (x_2, x_3) = cswap(x_2, x_3, s_t)
             (z_2, z_3) = cswap(z_2, z_3, s_t)
@@ -306,13 +308,13 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             D = x_3 - z_3
             DA = D * A
             CB = C * B
-            x_3 = (DA + CB)**2
-            z_3 = x_1 * (DA - CB)**2
-            x_2 = AA * BB
-            z_2 = E * (AA + a24 * E)   #BB?
+            x_3 = (DA + CB)**2 % p
+            z_3 = x1 * (DA - CB)**2 % p
+            x_2 = AA * BB % p
+            z_2 = E * (AA + a24 * E) % p
             (x_2, x_3) = cswap (x_2, x_3, s_t)
             (z_2, z_3) = cswap (z_2, z_3, s_t)
-        return (x_2 * (z_2**(p - 1))) % p
+        return (x_2 * pow(z_2, p - 2, p)) % p
 
 def cswap(x2, x3, bit):
     """ Swap routine used by Montgomery Ladder """
-- 
2.43.0


From 3efbd65c5587b98b4dafa480e8333ad0f6c7e205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 24/45] fix: new_private_key stays in the range 1 to n-1

It could return zero and integers not less than the order of the generator.
---
 ecc/ecc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index a423df9..fa89066 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -129,7 +129,8 @@ class SmallWeierstrassCurveFp( EllipticCurveFp ):
         return y
 
     def new_private_key(self):
-        return string_to_int( urandom(self.coord_size) )
+        """ A private key in the range 1 to n-1 (FIPS 186-4 B.4.1) """
+        return 1 + string_to_int( urandom(self.coord_size + 8) ) % (self.n - 1)
 
 
 class KoblitzCurveFp( SmallWeierstrassCurveFp ):
-- 
2.43.0


From b0d2d925ee7f9025dd892e1cdebba4b3dc1b989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 25/45] fix: ecc.int_to_string pads zero as well

---
 ecc/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index fa89066..74a1f74 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -329,8 +329,8 @@ def int_to_string( x, padto=None ):
         If 'padto' defined, result is zero padded to this length.
     """
     assert x >= 0
-    if x == 0: return chr(0)
     result = ""
+    if x == 0: result = chr(0)
     while x > 0:
         q, r = divmod( x, 256 )
         result = chr( r ) + result
-- 
2.43.0


From aa5c06e30692b078c5480a8d52dcb2b04567ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 26/45] fix: points can be encoded

int_to_string was not defined in this module.
---
 ecc/ellipticcurve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecc/ellipticcurve.py b/ecc/ellipticcurve.py
index eb6d2fc..792b1c9 100755
--- a/ecc/ellipticcurve.py
+++ b/ecc/ellipticcurve.py
@@ -23,6 +23,11 @@ from numbertheory import inverse_mod, square_root_mod_prime
 
 class EllipticCurveError(Exception): pass
 
+def int_to_string(x, padto=None):
+    """ int_to_string of ecc.py, which imports this module """
+    from ecc import int_to_string
+    return int_to_string(x, padto)
+
 class EllipticCurve(object):
     """ Base class for elliptic curves. """
     def point(self, x, y, validate=True):
-- 
2.43.0


From f349627dc04d65014b7b1e96ec2ae87c4dc77326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 27/45] fix: the curveId of SECP_521r1 is secp521r1

It had the curveId of SECP_256r1.
---
 ecc/curves.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index f5b4746..abb4371 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -405,7 +405,7 @@ class NIST_P384(SECP_384r1): # NIST renamed secp384r1
   
 class SECP_521r1( SmallWeierstrassCurveFp ):
     """ Suite B curve for 256 bit security """
-    curveId = 'secp256r1'
+    curveId = 'secp521r1'
     strength = 256
     oid = (1,3,132,0,35)  # {iso(1) identified-organization(3) certicom(132) curve(0) 35}
     # p = 2**251 - 1   #  a Mersenne prime
-- 
2.43.0


From 353afdbfe0eee72173b4d9fd013cf4cf304476e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 28/45] fix: M511 has its coefficient a = 530438

---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index abb4371..d4183d0 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -718,6 +718,7 @@ class M511( MontgomeryCurveFp ):
     strength = 254
     oid = None
     p  = 2**511-187
+    a  = 530438
     xG = 5
     yG = 2500410645565072423368981149139213252211568685173608590070979264248275228603899706950518127817176591878667784247582124505430745177116625808811349787373477
     n  = 2**508 + 10724754759635747624044531514068121842070756627434833028965540808827675062043
-- 
2.43.0


From 4da79cd51f9fdb3c1356f9784e1d5b1167a4048b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:04 +0000
Subject: [PATCH 29/45] fix: M383 has an oid attribute like every other curve

---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index d4183d0..089bef7 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -693,6 +693,7 @@ class M383( MontgomeryCurveFp ):
     """ y**2 == x**3+2065150*x**2+x mod 2**383-187 """
     curveId = 'm383'
     strength = 190
+    oid = None
     p = 2**383-187
     a = 2065150
     xG = 0xc  #  12
-- 
2.43.0


From a730ce2461d5f0d0c552bf34c4744447449c0ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:49 +0000
Subject: [PATCH 30/45] fix: n of GOSTmsg05975te is the order of its generator

It was the prime factor of the group order of the quadratic twist: n*G was not
the identity.
---
 ecc/curves.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 089bef7..a0e7068 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -335,8 +335,7 @@ class GOSTmsg05975te( TwistedEdwardsCurveFp ):
     a = 1  # was e in msg
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
-    #???
-    n  = 0x40000000000000000000000000000000000000000000000000000000000000003673245b9af954ffb3cc5600aeb8afd33712561858965ed96b9dc310b80fdaf7
+    n  = q  # the order of the generator, the group order is h*q
     xG = 0x12
     yG = 0x469AF79D1FB1F5E16B99592B77A01E2A0FDFB0D01794368D9A56117F7B38669522DD4B650CF789EEBF068C5D139732F0905622C04B2BAAE7600303EE73001A3D
     h = 4  # n = h*q
-- 
2.43.0


From fbfedf7b595a2140efa23a33b3d4d1cc1faaa72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:49 +0000
Subject: [PATCH 31/45] fix: n of GOSTmsg05975sw is the order of its generator

It was the order of the whole group, of which h counted the cofactor again.
---
 ecc/curves.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecc/curves.py b/ecc/curves.py
index a0e7068..10fb288 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -362,6 +362,7 @@ class GOSTmsg05975sw( SmallWeierstrassCurveFp ):
     yG = 0xF5CE40D95B5EB899ABBCCFF5911CB8577939804D6527378B8C108C3D2090FF9BE18E2D33E3021ED2EF32D85822423B6304F726AA854BAE07D0396E9A9ADDC40F
     n  = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF26336E91941AAC0130CEA7FD451D40B323B6A79E9DA6849A5188F3BD1FC08FB4
     q  = 0x3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFC98CDBA46506AB004C33A9FF5147502CC8EDA9E7A769A12694623CEF47F023ED
+    n  = q  # the order of the generator, the group order is h*q
     h = 4
 
     
-- 
2.43.0


From 290b4fdb5ab8ad7105876846d4aed33bef99300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:49 +0000
Subject: [PATCH 32/45] fix: TKIP WEP seed starts with the high octet of IV16

The two octets of IV16 were exchanged in the seed (not in the mixing), which
disagrees with 802.11i 8.3.2.5.2 and with the vectors in hash/test.
---
 hash/tkip_key_mixing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 8b9b6a1..4f57933 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -124,9 +124,9 @@ def phase2KeyMixing(tk,p1k,pn):
     ppk[5] = (ppk[5] + rotR1(ppk[4])) & 0xFFFF
 
     rc4Key = range(16)
-    rc4Key[0] =  pn[0]
-    rc4Key[1] = (pn[0] | 0x20) & 0x7F
-    rc4Key[2] =  pn[1]
+    rc4Key[0] =  pn[1]
+    rc4Key[1] = (pn[1] | 0x20) & 0x7F
+    rc4Key[2] =  pn[0]
     rc4Key[3] = 0xFF &((ppk[5]^(tk[1]*256+tk[0]))>>1)
     for i in range(6):
         rc4Key[4+2*i] = ppk[i] & 0xff
-- 
2.43.0


From 7d2f87c500533426c2dd285ad07202aea4435498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:03 +0000
Subject: [PATCH 33/45] fix: ChaCha_Poly_AEAD.decrypt reaches the two-value
 encryption

---
 cipher/chacha_poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cipher/chacha_poly.py b/cipher/chacha_poly.py
index 2081cab..138f830 100644
--- a/cipher/chacha_poly.py
+++ b/cipher/chacha_poly.py
@@ -560,8 +560,8 @@ class ChaCha20_AEAD(object):
         """ Returns the plain text and the tag calculated over the received
             cipher text, for comparison with the received tag.
         """
-        plain_text, _ = self.encrypt(aad, iv, cipher_text) # same key stream
-        _, tag = self.encrypt(aad, iv, plain_text)
+        plain_text, _ = ChaCha20_AEAD.encrypt(self, aad, iv, cipher_text) # same key stream
+        _, tag = ChaCha20_AEAD.encrypt(self, aad, iv, plain_text)
         return (plain_text, tag)
     
 class ChaCha_Poly_AEAD(ChaCha20_AEAD):
-- 
2.43.0


From b45e0266c97da15719c9c38c4f576869d158cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:08 +0000
Subject: [PATCH 34/45] fix: the 802.11i PRF gives all 256 blocks that its
 counter octet can number

---
 hash/prf_dot11.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/prf_dot11.py b/hash/prf_dot11.py
index 3a3c72b..c3e0a14 100755
--- a/hash/prf_dot11.py
+++ b/hash/prf_dot11.py
@@ -21,7 +21,7 @@ def PRF( key, prefix, data, number_of_bits):
         raise ValueError, 'requested bits not multiple of 8'
     R = ''
     i = 0
-    while len(R) <= number_of_octets :
+    while len(R) < number_of_octets :
         hmac_sha_1= hmac.new( key, prefix + chr(0x00) + data + chr(i), sha )
         i = i + 1
         R = R + hmac_sha_1.digest()       # concatenate latest hash to result string
-- 
2.43.0


From c20ad95a89044a7b3e5254bb73b6822d47b307a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:29:38 +0000
Subject: [PATCH 35/45] fix: a long key set on a keyed HMAC object is hashed
 alone

---
 hash/hmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/hmac.py b/hash/hmac.py
index 089a724..825ee31 100755
--- a/hash/hmac.py
+++ b/hash/hmac.py
@@ -45,7 +45,7 @@ class HMAC(Hash):
     def setKey(self,key):
         """ setKey(key) ... key is binary string """
         if len(key) > self.B:   # if key is too long then hash it
-            key = self.H(key)
+            key = self.H_outer(key) # H may have data of the old key
         # should raise error on short key, but breaks tests :-(
         key =key + (self.B-len(key)) * chr(0)
         self.k_xor_ipad = ''.join([chr(ord(bchar)^0x36) for bchar in key])
-- 
2.43.0


From e33f11865e4efdfa5c8f6f0d37aaa24fcdd48a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:42 +0000
Subject: [PATCH 36/45] fix: Brainpool curve oids are 1.3.36.3.3.2.8.1.1.n (RFC
 5639)

---
 ecc/curves.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 10fb288..74f8d1c 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -434,7 +434,7 @@ class NIST_P521(SECP_521r1):
 class BrainPoolP160r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP160r1'
     strength = 80
-    oid = (1,3,36,3,2,8,1,1,1)
+    oid = (1,3,36,3,3,2,8,1,1,1)
     p  = 0xE95E4A5F737059DC60DFC7AD95B3D8139515620F
     a  = 0x340E7BE2A280EB74E2BE61BADA745D97E8F7C300
     b  = 0x1E589A8595423412134FAA2DBDEC95C8D8675E58
@@ -450,7 +450,7 @@ class BrainPoolP160r1( SmallWeierstrassCurveFp ):
 class BrainPoolP160t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP160t1'    # Twisted version of brainpoolP160r1
     strength = 80
-    oid = (1,3,36,3,2,8,1,1,2)
+    oid = (1,3,36,3,3,2,8,1,1,2)
     p  = 0xE95E4A5F737059DC60DFC7AD95B3D8139515620F
     a  = p - 3 # for twistd version of brainpoolP160r1 Brainpool curve
     b  = 0x7A556B6DAE535B7B51ED2C4D7DAA7A0B5C55F380
@@ -467,7 +467,7 @@ class BrainPoolP160t1( SmallWeierstrassCurveFp ):
 class BrainPoolP192r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP192r1'
     strength = 96
-    oid = (1,3,36,3,2,8,1,1,3)
+    oid = (1,3,36,3,3,2,8,1,1,3)
     p  = 0xC302F41D932A36CDA7A3463093D18DB78FCE476DE1A86297
     a  = 0x6A91174076B1E0E19C39C031FE8685C1CAE040E5C69A28EF
     b  = 0x469A28EF7C28CCA3DC721D044F4496BCCA7EF4146FBF25C9
@@ -483,7 +483,7 @@ class BrainPoolP192r1( SmallWeierstrassCurveFp ):
 class BrainPoolP192t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP192t1'    # Twisted version of brainpoolP192r1
     strength = 96
-    oid = (1,3,36,3,2,8,1,1,4)
+    oid = (1,3,36,3,3,2,8,1,1,4)
     p  = 0xC302F41D932A36CDA7A3463093D18DB78FCE476DE1A86297
     a  = p - 3 # twisted version of brainpoolP192r1 so a = p-3
     b  = 0x13D56FFAEC78681E68F9DEB43B35BEC2FB68542E27897B79
@@ -498,7 +498,7 @@ class BrainPoolP192t1( SmallWeierstrassCurveFp ):
 class BrainPoolP224r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP224r1'
     strength = 112
-    oid = (1,3,36,3,2,8,1,1,5)
+    oid = (1,3,36,3,3,2,8,1,1,5)
     p  = 0xD7C134AA264366862A18302575D1D787B09F075797DA89F57EC8C0FF
     a  = 0x68A5E62CA9CE6C1C299803A6C1530B514E182AD8B0042A59CAD29F43
     b  = 0x2580F63CCFE44138870713B1A92369E33E2135D266DBB372386C400B
@@ -514,7 +514,7 @@ class BrainPoolP224r1( SmallWeierstrassCurveFp ):
 class BrainPoolP224t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP224t1'    # Twisted version of brainpoolP224r1
     strength = 112
-    oid = (1,3,36,3,2,8,1,1,6)
+    oid = (1,3,36,3,3,2,8,1,1,6)
     p  = 0xD7C134AA264366862A18302575D1D787B09F075797DA89F57EC8C0FF
     a  = p - 3 # twisted version of brainpoolP224r1 so a = p-3
     b  = 0x4B337D934104CD7BEF271BF60CED1ED20DA14C08B3BB64F18A60888D
@@ -529,7 +529,7 @@ class BrainPoolP224t1( SmallWeierstrassCurveFp ):
 class BrainPoolP256r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP256r1'
     strength = 128
-    oid = (1,3,36,3,2,8,1,1,7)
+    oid = (1,3,36,3,3,2,8,1,1,7)
     p  = 0xA9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377
     a  = 0x7D5A0975FC2C3057EEF67530417AFFE7FB8055C126DC5C6CE94A4B44F330B5D9
     b  = 0x26DC5C6CE94A4B44F330B5D9BBD77CBF958416295CF7E1CE6BCCDC18FF8C07B6
@@ -545,7 +545,7 @@ class BrainPoolP256r1( SmallWeierstrassCurveFp ):
 class BrainPoolP256t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP256t1'    # Twisted 
     strength = 128
-    oid = (1,3,36,3,2,8,1,1,8)
+    oid = (1,3,36,3,3,2,8,1,1,8)
     p  = 0xA9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377
     a  = p - 3  # twisted version of brainpoolP256r1 so that a = p-3
     b  = 0x662C61C430D84EA4FE66A7733D0B76B7BF93EBC4AF2F49256AE58101FEE92B04
@@ -558,7 +558,7 @@ class BrainPoolP256t1( SmallWeierstrassCurveFp ):
 class BrainPoolP320r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP320r1'
     strength = 160
-    oid = (1,3,36,3,2,8,1,1,9)
+    oid = (1,3,36,3,3,2,8,1,1,9)
     p  = 0xD35E472036BC4FB7E13C785ED201E065F98FCFA6F6F40DEF4F92B9EC7893EC28FCD412B1F1B32E27
     a  = 0x3EE30B568FBAB0F883CCEBD46D3F3BB8A2A73513F5EB79DA66190EB085FFA9F492F375A97D860EB4
     b  = 0x520883949DFDBC42D3AD198640688A6FE13F41349554B49ACC31DCCD884539816F5EB4AC8FB1F1A6
@@ -574,7 +574,7 @@ class BrainPoolP320r1( SmallWeierstrassCurveFp ):
 class BrainPoolP320t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP320t1'    # 't' for Twisted 
     strength = 160
-    oid = (1,3,36,3,2,8,1,1,10)
+    oid = (1,3,36,3,3,2,8,1,1,10)
     p  = 0xD35E472036BC4FB7E13C785ED201E065F98FCFA6F6F40DEF4F92B9EC7893EC28FCD412B1F1B32E27
     a  = p - 3  # twisted version of brainpoolP320r1 so that a = p-3
     b  = 0xA7F561E038EB1ED560B3D147DB782013064C19F27ED27C6780AAF77FB8A547CEB5B4FEF422340353
@@ -589,7 +589,7 @@ class BrainPoolP320t1( SmallWeierstrassCurveFp ):
 class BrainPoolP384r1( SmallWeierstrassCurveFp ):  
     curveId = 'brainpoolP384r1'
     strength = 192
-    oid = (1,3,36,3,2,8,1,1,11)
+    oid = (1,3,36,3,3,2,8,1,1,11)
     p  = 0x8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B412B1DA197FB71123ACD3A729901D1A71874700133107EC53
     a  = 0x7BC382C63D8C150C3C72080ACE05AFA0C2BEA28E4FB22787139165EFBA91F90F8AA5814A503AD4EB04A8C7DD22CE2826
     b  = 0x04A8C7DD22CE28268B39B55416F0447C2FB77DE107DCD2A62E880EA53EEB62D57CB4390295DBC9943AB78696FA504C11
@@ -605,7 +605,7 @@ class BrainPoolP384r1( SmallWeierstrassCurveFp ):
 class BrainPoolP384t1( SmallWeierstrassCurveFp ):  
     curveId = 'brainpoolP384t1'    # Twisted 
     strength = 192
-    oid = (1,3,36,3,2,8,1,1,12)
+    oid = (1,3,36,3,3,2,8,1,1,12)
     p  = 0x8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B412B1DA197FB71123ACD3A729901D1A71874700133107EC53
     a  = p - 3  # twisted version of brainpoolP384r1 so that a = p-3
     b  = 0x7F519EADA7BDA81BD826DBA647910F8C4B9346ED8CCDC64E4B1ABD11756DCE1D2074AA263B88805CED70355A33B471EE
@@ -620,7 +620,7 @@ class BrainPoolP384t1( SmallWeierstrassCurveFp ):
 class BrainPoolP512r1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP512r1'
     strength = 256
-    oid = (1,3,36,3,2,8,1,1,13)
+    oid = (1,3,36,3,3,2,8,1,1,13)
     p  = 0xAADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA703308717D4D9B009BC66842AECDA12AE6A380E62881FF2F2D82C68528AA6056583A48F3
     a  = 0x7830A3318B603B89E2327145AC234CC594CBDD8D3DF91610A83441CAEA9863BC2DED5D5AA8253AA10A2EF1C98B9AC8B57F1117A72BF2C7B9E7C1AC4D77FC94CA
     b  = 0x3DF91610A83441CAEA9863BC2DED5D5AA8253AA10A2EF1C98B9AC8B57F1117A72BF2C7B9E7C1AC4D77FC94CADC083E67984050B75EBAE5DD2809BD638016F723
@@ -635,7 +635,7 @@ class BrainPoolP512r1( SmallWeierstrassCurveFp ):
 class BrainPoolP512t1( SmallWeierstrassCurveFp ):
     curveId = 'brainpoolP512t1'
     strength = 256
-    oid = (1,3,36,3,2,8,1,1,14)
+    oid = (1,3,36,3,3,2,8,1,1,14)
     p  = 0xAADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA703308717D4D9B009BC66842AECDA12AE6A380E62881FF2F2D82C68528AA6056583A48F3
     a  = p - 3  # twisted version of brainpoolP512r1 so that a = p-3 
     b  = 0x7CBBBCF9441CFAB76E1890E46884EAE321F70C0BCB4981527897504BEC3E36A62BCDFA2304976540F6450085F2DAE145C22553B465763689180EA2571867423E
-- 
2.43.0


From 3b0f5e621a2251977db6bd0db3b64114980b3783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:18 +0000
Subject: [PATCH 37/45] fix: Ed25519 has d = 121665/121666 mod p and a
 generator on the curve

---
 ecc/curves.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ecc/curves.py b/ecc/curves.py
index 74f8d1c..135b19e 100755
--- a/ecc/curves.py
+++ b/ecc/curves.py
@@ -668,10 +668,9 @@ class Ed25519( EdwardsCurveFp ):
     strength = 126
     oid = None
     p  = 2**255 - 19
-    d =  1      #  d = (121665/121666) % p
-    xG = 9
-    yG = 14781619447589544791020593568409986887264606134616475288964881837755586237401
-    yG = 0x20ae19a1b8a086b4e01edd2c7748d14c923d4d7e6d7c61b229e9c5a27eced3d9
+    d  = 0x2dfc9311d490018c7338bf8688861767ff8ff5b2bebe27548a14b235eca6874a      #  d = (121665/121666) % p
+    xG = 0x6a6597b61bb3c380f9e4c2a8f03b12a4a2eb3745bdac20b63381207f0acc5252      #  image of Curve25519 generator
+    yG = 0x6666666666666666666666666666666666666666666666666666666666666658      #  (4/5) % p
     n  = 2**252 + 27742317777372353535851937790883648493 
     h  = 8     
        
-- 
2.43.0


From b4087491285a1b0e7b63046d916dcc10f515e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:43 +0000
Subject: [PATCH 38/45] fix: square_root_mod_prime works for large p = 1 (mod
 8)

---
 ecc/numbertheory.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 62bd411..d741d45 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -172,12 +172,14 @@ def square_root_mod_prime( a, p ):
         if d == p-1: return ( 2 * a * modular_exp( 4*a, (p-5)/8, p ) ) % p
         raise RuntimeError, "Shouldn't get here."
     
-    for b in range( 2, p ):
+    b = 2
+    while b < p:    # range() does not take a large p
         if jacobi( b*b-4*a, p ) == -1:
             f = ( a, -b, 1 )
             ff = polynomial_exp_mod( ( 0, 1 ), (p+1)/2, f, p )
             assert ff[1] == 0
             return ff[0]
+        b = b + 1
     raise RuntimeError, "No b found."
 
 def modular_sqrt(a, p):
-- 
2.43.0


From 4d0f1ee31859894e072338865dfaa45b9c7d0b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:43 +0000
Subject: [PATCH 39/45] fix: polynomial_exp_mod reduces its base, also for
 exponent 1

---
 ecc/numbertheory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index d741d45..3e90aeb 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -106,7 +106,7 @@ def polynomial_exp_mod( base, exponent, polymod, p ):
     
     if exponent == 0: return [ 1 ]
     
-    G = base
+    G = polynomial_reduce_mod( list( base ), polymod, p )
     k = exponent
     if k%2 == 1: s = G
     else:        s = [ 1 ]
-- 
2.43.0


From 6331f5113cf53edc2bd2c62036f66403d97d81c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:53 +0000
Subject: [PATCH 40/45] fix: non-linearity of a sequence of length one

---
 analysis/sbox_nonlinearity.py | 2 +-
 analysis/walshtransform.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/analysis/sbox_nonlinearity.py b/analysis/sbox_nonlinearity.py
index 42c758d..6255c82 100644
--- a/analysis/sbox_nonlinearity.py
+++ b/analysis/sbox_nonlinearity.py
@@ -49,7 +49,7 @@ def nonLinearity(t):
     """ Non-linearity of a binary sequence
     """
     wt = walshTransform(t)
-    nl = len(t)/2 - .5*max( [ abs(i) for i in wt ] )
+    nl = .5*len(t) - .5*max( [ abs(i) for i in wt ] )
     return nl
     
 def log2n(l):
diff --git a/analysis/walshtransform.py b/analysis/walshtransform.py
index b78c28e..199a449 100644
--- a/analysis/walshtransform.py
+++ b/analysis/walshtransform.py
@@ -32,7 +32,7 @@ def binaryInnerProduct(a,b):
 def nonLinearity(t):
     """ A measure of the non-linearity of a binary sequence """
     wt = walshTransform(t)
-    nl = len(t)/2 - .5*max( [ abs(i) for i in wt ] )
+    nl = .5*len(t) - .5*max( [ abs(i) for i in wt ] )
     return nl
     
 def log2n(l):
-- 
2.43.0


From e1849ed856a27f7432dc00e58c2082019693a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:36 +0000
Subject: [PATCH 41/45] fix: scalar multiples on Edwards curves do not recurse
 once per bit

---
 ecc/ecc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 74a1f74..7d87236 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -183,10 +183,11 @@ class TwistedEdwardsCurveFp( EllipticCurveFp ):
             return curve.scalar_multiple(-point, -scalar)
         if scalar == 0:
             return curve.IDENTITY
-        q = curve.scalar_multiple(point, scalar/2)
-        q = q + q
-        if scalar & 1:
-            q = q + point
+        q = curve.IDENTITY
+        for i in reversed(range(scalar.bit_length())):
+            q = q + q
+            if (scalar >> i) & 1:
+                q = q + point
         return q
 
     def identity(curve):
-- 
2.43.0


From 65376033e82a0233f98d7be0d851357931e094b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:37 +0000
Subject: [PATCH 42/45] fix: scalar multiples on Montgomery curves do not
 recurse once per bit

---
 ecc/ecc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ecc/ecc.py b/ecc/ecc.py
index 7d87236..d9d5954 100755
--- a/ecc/ecc.py
+++ b/ecc/ecc.py
@@ -258,10 +258,11 @@ class MontgomeryCurveFp( EllipticCurveFp ):
             return curve.scalar_multiple(-point, -scalar)
         if scalar == 0:
             return curve.IDENTITY
-        q = curve.scalar_multiple(point, scalar/2)
-        q = q + q
-        if scalar & 1:
-            q = q + point
+        q = curve.IDENTITY
+        for i in reversed(range(scalar.bit_length())):
+            q = q + q
+            if (scalar >> i) & 1:
+                q = q + point
         return q
 
     def identity(curve):
-- 
2.43.0


From 55cdad00a9f9da1c4118abdb60e860341ddfba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:37 +0000
Subject: [PATCH 43/45] fix: egcd does not recurse, for fields of thousands of
 bits

---
 fmath/galoisfield.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/fmath/galoisfield.py b/fmath/galoisfield.py
index 090e710..e76ed00 100644
--- a/fmath/galoisfield.py
+++ b/fmath/galoisfield.py
@@ -94,11 +94,12 @@ class Element_of_GFp:
          
 
 def egcd(a, b):
-    if a == 0:
-        return (b, 0, 1)
-    else:
-        g, y, x = egcd(b % a, a)
-        return (g, x - (b // a) * y, y)
+    x, y, u, v = 0, 1, 1, 0     # b = a0*x + b0*y, a = a0*u + b0*v
+    while a != 0:
+        q = b // a
+        a, b = b - q * a, a
+        x, y, u, v = u, v, x - q * u, y - q * v
+    return (b, x, y)
 
 def inverse_mod(a, m):
     g, x, y = egcd(a % m, m)
-- 
2.43.0


From 5b5bfb5c5a1e99e98f202273220b7b57abbe779a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:37 +0000
Subject: [PATCH 44/45] fix: jacobi does not recurse, for moduli of thousands
 of bits

---
 ecc/numbertheory.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/ecc/numbertheory.py b/ecc/numbertheory.py
index 3e90aeb..d9d3510 100755
--- a/ecc/numbertheory.py
+++ b/ecc/numbertheory.py
@@ -131,17 +131,20 @@ def jacobi( a, n ):
     
     assert n >= 3
     assert n%2 == 1
-    a = a % n
-    if a == 0: return 0
-    if a == 1: return 1
-    a1, e = a, 0
-    while a1%2 == 0:
-        a1, e = a1/2, e+1
-    if e%2 == 0 or n%8 == 1 or n%8 == 7: s = 1
-    else: s = -1
-    if a1 == 1: return s
-    if n%4 == 3 and a1%4 == 3: s = -s
-    return s * jacobi( n % a1, a1 )
+    t = 1
+    while True:     # not recursive: n may have thousands of bits
+        a = a % n
+        if a == 0: return 0
+        if a == 1: return t
+        a1, e = a, 0
+        while a1%2 == 0:
+            a1, e = a1/2, e+1
+        if e%2 == 0 or n%8 == 1 or n%8 == 7: s = 1
+        else: s = -1
+        if a1 == 1: return t * s
+        if n%4 == 3 and a1%4 == 3: s = -s
+        t = t * s
+        a, n = n, a1
 
 
 def square_root_mod_prime( a, p ):
-- 
2.43.0


From 8ae8cfe2908567d15db3f1b6d7820995d9002bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:22:02 +0000
Subject: [PATCH 45/45] fix: TKIP mixer interrupted in newKey gave wrong keys
 afterwards

The upper octets of the packet number were recorded before the phase 1 key
for them was calculated; when that was broken off by an exception, the next
keys were mixed from the phase 1 key of other octets.
---
 hash/tkip_key_mixing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hash/tkip_key_mixing.py b/hash/tkip_key_mixing.py
index 4f57933..300977d 100755
--- a/hash/tkip_key_mixing.py
+++ b/hash/tkip_key_mixing.py
@@ -82,8 +82,9 @@ class TKIP_Mixer:
         self.setPnBytes(pnBytes)
         if self.pnBytes[-4:] != self.upper4SequenceOctets: # check if upper bits change
             # calculate phase1 key only when upper bytes change
-            self.upper4SequenceOctets = pnBytes[-4:]
+            self.upper4SequenceOctets = None # no phase1Key until it is calculated
             self.phase1Key = phase1KeyMixing( self.tk, self.ta, self.pn )
+            self.upper4SequenceOctets = pnBytes[-4:]
         return  phase2KeyMixing( self.tk, self.phase1Key, self.pn )
 
 def phase1KeyMixing(tk,ta,pn):
-- 
2.43.0

