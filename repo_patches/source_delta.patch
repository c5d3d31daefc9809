From 3f28b21006b436f17adb5e6bf96b5367cac51cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:48 +0000
Subject: [PATCH 01/40] fix: authenticate empty payloads

An empty plaintext produced no chunk at all, so any file truncated right after the
payload nonce decrypted successfully to nothing. The age format requires a single
empty final chunk in that case.
---
 src/age/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/age/stream.py b/src/age/stream.py
index 9a34a08..650b50d 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -14,7 +14,8 @@ def _pack_nonce(nonce: int, last_block: bool = False) -> bytes:
 
 
 def _chunk(data, size):
-    for i in range(0, len(data), size):
+    # empty data still consists of one (empty) chunk, so that even an empty stream is authenticated
+    for i in range(0, max(len(data), 1), size):
         yield data[i : i + size]
 
 
@@ -22,7 +23,7 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE)
+    blocks = max(math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE), 1)
 
     encrypted = b""
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
@@ -38,7 +39,7 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE)
+    blocks = max(math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE), 1)
 
     decrypted = b""
     for nonce, block in enumerate(_chunk(data, CIPHERTEXT_BLOCK_SIZE)):
-- 
2.43.0


From 1f376355395b201d66c73ecb87ac395b55c2ef5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 02/40] fix: try the remaining keys and recipients when an SSH
 key does not match

A mismatching SSH fingerprint raises ValueError, which aborted decryption although
another identity or another recipient entry matched.
---
 src/age/recipients/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/recipients/helpers.py b/src/age/recipients/helpers.py
index 4814876..28f8934 100644
--- a/src/age/recipients/helpers.py
+++ b/src/age/recipients/helpers.py
@@ -31,7 +31,8 @@ def decrypt_file_key(
         for key in _filter_keys_for_recipient(recipient, keys):
             try:
                 return recipient.decrypt(key)
-            except InvalidTag:
+            except (InvalidTag, ValueError):
+                # ValueError is raised by the SSH algorithms if the entry is for another key
                 continue
 
     raise NoIdentity("No matching key")
-- 
2.43.0


From de4c9e281ab67901c62b77723471e7a822a82d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 03/40] fix: verify the header MAC over the header bytes that
 were read

The MAC was computed over a re-serialised header, so modified headers (extra lines,
whitespace, re-wrapped bodies) were accepted, and valid files of other
implementations with a different layout (e.g. empty stanza bodies) were rejected.
---
 src/age/file.py   |  4 +---
 src/age/format.py | 12 ++++++++++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 1740986..ae702a5 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -103,9 +103,7 @@ class Decryptor(io.RawIOBase):
                 recipients.append(recipient)
 
         self._file_key = decrypt_file_key(recipients, identities)
-        header_stream = io.BytesIO()
-        dump_header(header, header_stream, mac=None)
-        HMAC(self._hkdf(HEADER_HKDF_LABEL)).verify(header_stream.getvalue(), mac)
+        HMAC(self._hkdf(HEADER_HKDF_LABEL)).verify(header.authenticated_bytes, mac)
         # TODO: Should we try another identity if HMAC validation fails?
 
     def _decrypt_body(self):
diff --git a/src/age/format.py b/src/age/format.py
index de9e866..732ec08 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -26,6 +26,9 @@ class Header:
 
         self.recipients: typing.List[Recipient] = recipients
 
+        # the bytes covered by the MAC, exactly as read by load_header
+        self.authenticated_bytes: bytes = b""
+
 
 AGE_INTRO = "age-encryption.org/v1"
 RECIPIENT_PREFIX = "->"
@@ -34,12 +37,13 @@ AEAD = "ChaChaPoly"
 
 
 def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
-    first_line = stream.readline().strip()
+    first_line = stream.readline()
 
-    if first_line.decode("utf-8", "replace") != AGE_INTRO:
+    if first_line.strip().decode("utf-8", "replace") != AGE_INTRO:
         raise ParserError("File signature not found.")
 
     header = Header()
+    authenticated = bytearray(first_line)
 
     line = ""
     for raw_line in stream:
@@ -49,14 +53,18 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
             type, *args = line[len(RECIPIENT_PREFIX) :].split()
             header.recipients.append(Recipient(type, args))
         elif line.startswith(FOOTER_PREFIX):
+            authenticated += FOOTER_PREFIX.encode("utf-8")
             break
         elif len(header.recipients) > 0:
             header.recipients[-1].body += line.strip()
 
+        authenticated += raw_line
+
     assert line.startswith(FOOTER_PREFIX)
     prefix, encoded_mac = line.split()
     assert prefix == FOOTER_PREFIX
     mac = decode(encoded_mac)
+    header.authenticated_bytes = bytes(authenticated)
 
     return header, mac
 
-- 
2.43.0


From f999e223167a41b9869382ded9067ba160ae3f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:09 +0000
Subject: [PATCH 04/40] fix: end recipient bodies with a short line

The age format requires the last line of a recipient body to be shorter than 64
columns. Bodies filling their last line (ssh-rsa with a 3072 bit key) were written
without the empty line that other implementations need.
---
 src/age/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/age/format.py b/src/age/format.py
index 732ec08..d478619 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -78,6 +78,9 @@ def dump_header(header: Header, stream: typing.BinaryIO, mac: typing.Optional[by
         if recipient.body:
             wrapped = textwrap.fill(recipient.body, break_on_hyphens=False, width=64)
             stream.write(wrapped.encode("utf-8") + b"\n")
+        if len(recipient.body) % 64 == 0:
+            # the last line of a body must be shorter than 64 columns, even if it is empty
+            stream.write(b"\n")
 
     footer = FOOTER_PREFIX
     if mac:
-- 
2.43.0


From 944d9e3210de72e2cc8eb3be3f941c0fe5d3cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 05/40] fix: do not follow github: lines inside recipient lists

Recipient files and URLs are resolved with URLs disabled, but a github: line in
them still triggered a download.
---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 64ce240..8e0cfe3 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -120,7 +120,7 @@ def resolve_public_key(
         return resolved_from_alias
 
     # resolve "github:" links
-    if keystr.startswith("github:"):
+    if read_urls and keystr.startswith("github:"):
         _, _, username = keystr.partition(":")
         github_url = f"https://github.com/{username}.keys"
         return resolve_public_key(github_url)
-- 
2.43.0


From 221a389e76687882b270746a1c23f63231f5da84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:23 +0000
Subject: [PATCH 06/40] fix: skip SSH keys that cannot be loaded

A single passphrase protected, unsupported or damaged file matching ~/.ssh/id_* made
every decryption fail.
---
 src/age/keyloader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 8e0cfe3..4fa848c 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -2,6 +2,7 @@ import collections
 import glob
 import os.path
 import re
+import sys
 import typing
 
 import requests
@@ -70,7 +71,13 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
     keys = []
 
     for filename in glob.glob(os.path.join(root, "id_*")):
-        key = load_ssh_private_key(filename)
+        try:
+            key = load_ssh_private_key(filename)
+        except Exception as e:
+            # e.g. passphrase protected, unsupported or damaged, must not affect the other keys
+            print(f"Ignoring SSH key '{filename}': {e}", file=sys.stderr)
+            continue
+
         if key:
             keys.append(key)
 
-- 
2.43.0


From ffc4b622efb33013cac1ee4f498c61be67ff4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:29 +0000
Subject: [PATCH 07/40] fix: refuse to encrypt if a recipient cannot be
 resolved

Recipients that did not resolve to any key were silently dropped if there was at least
one other recipient.
---
 src/age/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 9337a64..48d3709 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -65,7 +65,11 @@ def encrypt(
 
     keys = []
     for recipient in recipients:
-        keys.extend(resolve_public_key(recipient, aliases=aliases))
+        resolved = resolve_public_key(recipient, aliases=aliases)
+        if not resolved:
+            print(f"Could not resolve recipient '{recipient}'.", file=sys.stderr)
+            sys.exit(1)
+        keys.extend(resolved)
 
     if ask_password:
         if recipients:
-- 
2.43.0


From 3602af55725e11fdf8c9b3cbe2f0bd285c6e7c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:38 +0000
Subject: [PATCH 08/40] fix: close armored output explicitly

The armored output was only written by the garbage collector, which swallows errors:
writing to a full disk succeeded with exit status 0. Closing it also did not flush the
text to the underlying stream, which got closed together with it.
---
 src/age/cli.py              | 4 ++++
 src/age/utils/asciiarmor.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/age/cli.py b/src/age/cli.py
index 48d3709..78c36c2 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -93,6 +93,10 @@ def encrypt(
     with Encryptor(keys, outfile) as encryptor:
         encryptor.write(infile.read())
 
+    if ascii_armored:
+        # the encryptor does not close its output, and the armor is written on closing
+        outfile.close()
+
 
 def decrypt(
     infile: typing.Optional[typing.BinaryIO] = None,
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 238cd07..b9379b2 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -115,6 +115,9 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)
         self._plaintext_buffer = b""
 
+        # flush the text and leave the underlying stream open
+        self._text_stream.detach()
+
 
 class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
     def __init__(self, label: str, stream: typing.BinaryIO):
-- 
2.43.0


From 86025d019d122cc44ea15c6dd0ca426468bd34fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:45 +0000
Subject: [PATCH 09/40] fix: only hash HMAC keys longer than the SHA-256 block
 size

RFC 2104 hashes keys longer than the block size (64 bytes), not longer than the digest.
---
 src/age/primitives/hmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/primitives/hmac.py b/src/age/primitives/hmac.py
index 018f6e8..512c72e 100644
--- a/src/age/primitives/hmac.py
+++ b/src/age/primitives/hmac.py
@@ -7,7 +7,7 @@ __all__ = ["HMAC"]
 
 
 def _reduce_key(key: bytes) -> bytes:
-    if len(key) > 32:
+    if len(key) > 64:
         digest = hashes.Hash(hashes.SHA256(), backend=default_backend())
         digest.update(key)
         key = digest.finalize()
-- 
2.43.0


From 3cd425ea925ecd4d8ffa0819216840591a693de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 10/40] fix: load nistp384 OpenSSH keys

It was the only one of the three OpenSSH curves that was missing.
---
 src/age/openssh_keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index b382024..7553db1 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -100,6 +100,7 @@ def _deserialize_ecdsa_private_key(stream: typing.BinaryIO) -> ec.EllipticCurveP
 
     curves: typing.Dict[bytes, typing.Type[ec.EllipticCurve]] = {
         b"nistp256": ec.SECP256R1,
+        b"nistp384": ec.SECP384R1,
         b"nistp521": ec.SECP521R1,
         b"nistp224": ec.SECP224R1,
     }
-- 
2.43.0


From 9caf5bda880f811d5fa6d28d76550147d823b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:00 +0000
Subject: [PATCH 11/40] fix: refuse writes to closed encryptors and armored
 outputs

The data was accepted, but never written.
---
 src/age/file.py             | 2 ++
 src/age/utils/asciiarmor.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/age/file.py b/src/age/file.py
index ae702a5..f2c5f88 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -30,6 +30,8 @@ class Encryptor(io.RawIOBase):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed file")
         self._plaintext_buffer += data
         return len(data)
 
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index b9379b2..264d101 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -91,6 +91,8 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         return True
 
     def write(self, data):
+        if self.closed:
+            raise ValueError("write to closed file")
         self._plaintext_buffer += data
         return len(data)
 
-- 
2.43.0


From 90c7225806eb1055d4c12f06b0e87df61d9a78ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:12 +0000
Subject: [PATCH 12/40] fix: refuse OpenSSH Ed25519 keys whose public key does
 not match the seed

---
 src/age/openssh_keys.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 7553db1..3cf86c5 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -9,6 +9,7 @@ from cryptography.hazmat.primitives.asymmetric import dsa, ec, ed25519, rsa
 from cryptography.hazmat.primitives.ciphers import Cipher
 from cryptography.hazmat.primitives.ciphers import algorithms as cipher_algos
 from cryptography.hazmat.primitives.ciphers import modes as cipher_modes
+from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
 
 from age.utils.asciiarmor import read_ascii_armored
 
@@ -128,7 +129,10 @@ def _deserialize_ed25519_private_key(stream: typing.BinaryIO) -> ed25519.Ed25519
     private_key_bytes = _sshbuf_get_cstring(stream)
     assert len(private_key_bytes) == 64
     assert private_key_bytes[32:] == public_key_bytes
-    return ed25519.Ed25519PrivateKey.from_private_bytes(private_key_bytes[:32])
+    key = ed25519.Ed25519PrivateKey.from_private_bytes(private_key_bytes[:32])
+    if key.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw) != public_key_bytes:
+        raise InvalidKeyFile("Public key does not belong to private key")
+    return key
 
 
 def _decrypt_key(
-- 
2.43.0


From 5de4ba9f8a144c7be0a6750bc5d6927439590b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:21 +0000
Subject: [PATCH 13/40] fix: refuse OpenSSH private keys with truncated strings

---
 src/age/openssh_keys.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 3cf86c5..32e673a 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -39,7 +39,10 @@ def _read_struct(stream: typing.BinaryIO, fmt: str) -> tuple:
 
 def _sshbuf_get_cstring(stream: typing.BinaryIO) -> bytes:
     (length,) = _read_struct(stream, ">I")  # read data in the format: 32-bit length, data[length]
-    return stream.read(length)
+    data = stream.read(length)
+    if len(data) != length:
+        raise InvalidKeyFile("String truncated")
+    return data
 
 
 def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
-- 
2.43.0


From b41868396db77b852c69600eb664cd7d34ee7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:31 +0000
Subject: [PATCH 14/40] fix: check all padding bytes of OpenSSH private keys

---
 src/age/openssh_keys.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 32e673a..757ac21 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -268,14 +268,9 @@ def load_openssh_private_key(
     # discard key comment
     _sshbuf_get_cstring(decrypted_stream)
 
-    # check deterministic padding: \x01\x02\x03\x04.. up til max. \x07
-    for i in range(1, 8):
-        try:
-            (pad,) = _read_struct(decrypted_stream, "B")
-        except struct.error:
-            # EOF
-            break
-        if pad != i:
+    # check deterministic padding: \x01\x02\x03\x04.. until the end
+    for i, pad in enumerate(decrypted_stream.read(), start=1):
+        if pad != i & 0xFF:
             raise InvalidKeyFile("Broken file padding")
 
     return key
-- 
2.43.0


From c49209c1bf3576a0a6f3527eb7fa4a43729234f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 15/40] fix: reject non-ASCII characters in Bech32 strings

---
 src/age/primitives/bech32.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/age/primitives/bech32.py b/src/age/primitives/bech32.py
index 041fc55..7645629 100644
--- a/src/age/primitives/bech32.py
+++ b/src/age/primitives/bech32.py
@@ -149,6 +149,10 @@ def bech32_encode(hrp: str, payload: bytes) -> str:
 def bech32_decode(bech: str) -> typing.Tuple[str, bytes]:
     """Validate a Bech32 string, and determine HRP and data."""
 
+    if any(ord(c) < 33 or ord(c) > 126 for c in bech):
+        # must be checked first: some other characters become legal ones when lowercased
+        raise ValueError("invalid character in Bech32 string")
+
     if not (bech.upper() == bech or bech.lower() == bech):
         raise ValueError("Bech32 string must either be all-lowercase or all-uppercase")
 
-- 
2.43.0


From ef8c817188157a279dd8ad68e297280edec7282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 16/40] fix: reject age key strings in mixed case or with
 non-ASCII look-alikes

---
 src/age/keys/agekey.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/age/keys/agekey.py b/src/age/keys/agekey.py
index a263b4b..8582900 100644
--- a/src/age/keys/agekey.py
+++ b/src/age/keys/agekey.py
@@ -33,8 +33,6 @@ class AgePrivateKey(DecryptionKey):
     @classmethod
     def from_private_string(cls, data: str):
         """Read an age key from a private key string"""
-        data = data.lower()
-
         hrp, bytes_ = bech32_decode(data)
         if hrp != cls.PRIVATE_KEY_BECH32_HRP or len(bytes_) != 32:
             raise ValueError("invalid age private key")
@@ -84,8 +82,6 @@ class AgePublicKey(EncryptionKey):
     @classmethod
     def from_public_string(cls, data: str):
         """Read an age public key from a public key string"""
-        data = data.lower()
-
         hrp, key = bech32_decode(data)
         if hrp != cls.PUBLIC_KEY_BECH32_HRP:
             raise ValueError("invalid age public key")
-- 
2.43.0


From 0509bd87f40950d18a2dd27e85d530be9ed5c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 17/40] fix: write no payload if writing the header failed

---
 src/age/file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/age/file.py b/src/age/file.py
index f2c5f88..bd9e629 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -23,8 +23,10 @@ class Encryptor(io.RawIOBase):
         self._file_key: bytes = random(16)
 
         self._plaintext_buffer: bytes = b""
+        self._header_written: bool = False
 
         self._write_header(keys)
+        self._header_written = True
 
     def writable(self):
         return True
@@ -37,7 +39,8 @@ class Encryptor(io.RawIOBase):
 
     def close(self):
         if not self.closed:
-            self._encrypt_buffer()
+            if self._header_written:
+                self._encrypt_buffer()
             super().close()
 
     def _hkdf(self, label: bytes, salt: bytes = b"") -> bytes:
-- 
2.43.0


From 23d1e666994b61a8cb6214d865ec82812625d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:56 +0000
Subject: [PATCH 18/40] fix: start writing encrypted output only after
 encryption succeeded

---
 src/age/cli.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 78c36c2..acd54e6 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -86,15 +86,19 @@ def encrypt(
         print("You must specify at least one recipient.", file=sys.stderr)
         sys.exit(1)
 
+    # no output may be written before everything that can fail has succeeded
+    ciphertext = io.BytesIO()
+    with Encryptor(keys, ciphertext) as encryptor:
+        encryptor.write(infile.read())
+
     if ascii_armored:
         # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
         outfile = AsciiArmoredOutput(AGE_PEM_LABEL, outfile)  # type: ignore
 
-    with Encryptor(keys, outfile) as encryptor:
-        encryptor.write(infile.read())
+    outfile.write(ciphertext.getvalue())
 
     if ascii_armored:
-        # the encryptor does not close its output, and the armor is written on closing
+        # the armor is written on closing
         outfile.close()
 
 
-- 
2.43.0


From 150b592a62c7d15015457e0f234295fb39f761ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:02 +0000
Subject: [PATCH 19/40] fix: write the passphrase prompt to standard error

---
 src/age/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index acd54e6..430a1b6 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -79,7 +79,7 @@ def encrypt(
                 + "the message content and recipient list.",
                 file=sys.stderr,
             )
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
@@ -139,7 +139,7 @@ def decrypt(
         keys.extend(load_keys_txt(keyfile))
 
     if ask_password:
-        password = click.prompt("Type passphrase", hide_input=True).encode("utf-8")
+        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
         keys.append(PasswordKey(password))
 
     if not keys:
-- 
2.43.0


From a8ffc8523e6ad4edba38ebf5054a6306cca6f6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 20/40] fix: buffer standard output even if Python runs
 unbuffered

---
 src/age/cli.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 430a1b6..2336e2c 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -197,7 +197,16 @@ def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
 @click.group()
 @click.version_option(version=age_version)
 def main():
-    pass
+    if isinstance(getattr(sys.stdout, "buffer", None), io.RawIOBase):
+        # Unbuffered streams (python -u) may accept only a part of the data without an error,
+        # e.g. if the disk is full.
+        sys.stdout = open(
+            sys.stdout.fileno(),
+            "w",
+            encoding=sys.stdout.encoding,
+            errors=sys.stdout.errors,
+            closefd=False,
+        )
 
 
 @main.command("encrypt")
-- 
2.43.0


From e9dcc30ef1305b3c8b6c2c9060aeedc9abc4b7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 21/40] fix: write everything to streams that accept only a
 part at a time

---
 src/age/file.py             | 12 ++++++++----
 src/age/utils/asciiarmor.py | 11 +++++++----
 src/age/utils/write_all.py  | 14 ++++++++++++++
 3 files changed, 29 insertions(+), 8 deletions(-)
 create mode 100644 src/age/utils/write_all.py

diff --git a/src/age/file.py b/src/age/file.py
index bd9e629..592574c 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -10,6 +10,7 @@ from age.primitives.hmac import HMAC
 from age.primitives.random import random
 from age.recipients.helpers import decrypt_file_key, generate_recipient_from_key, get_recipient
 from age.stream import stream_decrypt, stream_encrypt
+from age.utils.write_all import write_all
 
 __all__ = ["Encryptor", "Decryptor"]
 
@@ -58,17 +59,20 @@ class Encryptor(io.RawIOBase):
         dump_header(header, header_stream, mac=None)
 
         mac = HMAC(self._hkdf(HEADER_HKDF_LABEL)).generate(header_stream.getvalue())
-        dump_header(header, self._stream, mac=mac)
+
+        header_stream = io.BytesIO()
+        dump_header(header, header_stream, mac=mac)
+        write_all(self._stream, header_stream.getvalue())
 
     def _encrypt_buffer(self):
-        self._stream.write(b"\n")
+        write_all(self._stream, b"\n")
 
         nonce = random(16)
-        self._stream.write(nonce)
+        write_all(self._stream, nonce)
 
         stream_key = self._hkdf(PAYLOAD_HKDF_LABEL, nonce)
         ciphertext = stream_encrypt(stream_key, self._plaintext_buffer)
-        self._stream.write(ciphertext)
+        write_all(self._stream, ciphertext)
 
         self._plaintext_buffer = b""
 
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 264d101..8ff125d 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -3,6 +3,8 @@ import io
 import re
 import typing
 
+from age.utils.write_all import write_all
+
 START_RE = re.compile(r"^-----BEGIN ([^-]*)-----\n$")
 END_RE = re.compile(r"^-----END ([^-]*)-----\n?$")
 
@@ -83,7 +85,6 @@ def write_ascii_armored(file: typing.TextIO, label: str, data: bytes) -> None:
 class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
     def __init__(self, label: str, stream: typing.BinaryIO):
         self._stream: typing.BinaryIO = stream
-        self._text_stream: typing.TextIO = io.TextIOWrapper(stream, "utf-8")
         self._plaintext_buffer: bytes = b""
         self._label: str = label
 
@@ -114,11 +115,13 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
         raise NotImplementedError()
 
     def _encode_buffer(self):
-        write_ascii_armored(self._text_stream, self._label, self._plaintext_buffer)
+        text_stream = io.StringIO()
+        write_ascii_armored(text_stream, self._label, self._plaintext_buffer)
         self._plaintext_buffer = b""
 
-        # flush the text and leave the underlying stream open
-        self._text_stream.detach()
+        # leave the underlying stream open
+        write_all(self._stream, text_stream.getvalue().encode("utf-8"))
+        self._stream.flush()
 
 
 class AsciiArmoredInput(io.RawIOBase, typing.BinaryIO):
diff --git a/src/age/utils/write_all.py b/src/age/utils/write_all.py
new file mode 100644
index 0000000..e0cc600
--- /dev/null
+++ b/src/age/utils/write_all.py
@@ -0,0 +1,14 @@
+import typing
+
+__all__ = ["write_all"]
+
+
+def write_all(stream: typing.BinaryIO, data: bytes) -> None:
+    """Write all of `data`, even to an unbuffered stream which accepts only a part at a time."""
+    while data:
+        written = stream.write(data)
+        if written is None or written >= len(data):
+            break
+        if written <= 0:
+            raise OSError("stream does not accept any data")
+        data = data[written:]
-- 
2.43.0


From 071ea8b85fbe93a76b19229aebf0e1eb865f415e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 22/40] fix: do not write again after closing has failed

---
 src/age/file.py             | 8 +++++---
 src/age/utils/asciiarmor.py | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 592574c..434b77e 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -40,9 +40,11 @@ class Encryptor(io.RawIOBase):
 
     def close(self):
         if not self.closed:
-            if self._header_written:
-                self._encrypt_buffer()
-            super().close()
+            try:
+                if self._header_written:
+                    self._encrypt_buffer()
+            finally:
+                super().close()
 
     def _hkdf(self, label: bytes, salt: bytes = b"") -> bytes:
         return hkdf(salt, label, self._file_key, 32)
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 8ff125d..8894e17 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -99,8 +99,10 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 
     def close(self):
         if not self.closed:
-            self._encode_buffer()
-            super().close()
+            try:
+                self._encode_buffer()
+            finally:
+                super().close()
 
     def read(self, n):
         # Needed to implement typing.BinaryIO
-- 
2.43.0


From b44c64697f48a76843b6a2e65265405d62b97781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:24 +0000
Subject: [PATCH 23/40] fix: split downloaded key lists into lines like files

---
 src/age/keyloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 4fa848c..a548da7 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -1,5 +1,6 @@
 import collections
 import glob
+import io
 import os.path
 import re
 import sys
@@ -147,7 +148,8 @@ def resolve_public_key(
         resolved_from_url: typing.List[EncryptionKey] = []
         response = requests.get(keystr)
         response.raise_for_status()
-        for line in response.text.splitlines():
+        # same line ends as in a file, str.splitlines() also splits at e.g. U+0085 and U+2028
+        for line in io.StringIO(response.text, newline=None):
             resolved_from_url.extend(
                 resolve_public_key(line, read_aliases=False, read_files=False, read_urls=False)
             )
-- 
2.43.0


From bc9d05b3bb1fe4943e4e95ce1df6030a2ea3c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:27 +0000
Subject: [PATCH 24/40] fix: find SSH keys if the path of the home directory
 contains glob characters

---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index a548da7..efd2d21 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -71,7 +71,7 @@ def load_ssh_keys(root="~/.ssh") -> typing.Collection[DecryptionKey]:
 
     keys = []
 
-    for filename in glob.glob(os.path.join(root, "id_*")):
+    for filename in glob.glob(os.path.join(glob.escape(root), "id_*")):
         try:
             key = load_ssh_private_key(filename)
         except Exception as e:
-- 
2.43.0


From c96e5cd90d9e14c987198b727713959ca6369f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:48 +0000
Subject: [PATCH 25/40] fix: reject an armored section cut off right after its
 first line

---
 src/age/utils/asciiarmor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 8894e17..86b88db 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -5,7 +5,7 @@ import typing
 
 from age.utils.write_all import write_all
 
-START_RE = re.compile(r"^-----BEGIN ([^-]*)-----\n$")
+START_RE = re.compile(r"^-----BEGIN ([^-]*)-----\n?$")
 END_RE = re.compile(r"^-----END ([^-]*)-----\n?$")
 
 PEM_LINE_LENGTH = 64
-- 
2.43.0


From d927faaf80d61b27288a66509c80b3273a5d3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:23 +0000
Subject: [PATCH 26/40] fix: decrypt files read from unbuffered streams that
 return data in pieces

---
 src/age/file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 434b77e..4747e8c 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -120,11 +120,12 @@ class Decryptor(io.RawIOBase):
     def _decrypt_body(self):
         assert self._file_key is not None
 
-        nonce = self._stream.read(16)
+        # a sized read of an unbuffered stream (e.g. a pipe) may return only a part of the nonce
+        payload = self._stream.read()
+        nonce, ciphertext = payload[:16], payload[16:]
         assert len(nonce) == 16, "Could not read nonce"
 
         stream_key = self._hkdf(PAYLOAD_HKDF_LABEL, nonce)
-        ciphertext = self._stream.read()
         plaintext = stream_decrypt(stream_key, ciphertext)
 
         self._plaintext_stream = io.BytesIO(plaintext)
-- 
2.43.0


From 4a8291385c3cf04ff3428b402bbe645ce53285e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 27/40] fix: an interrupted armored encryption left an empty
 armored file

The armored stream wrote its section when it was given up after an error.
---
 src/age/cli.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 2336e2c..7085fd9 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -17,6 +17,7 @@ from age.keys.base import DecryptionKey
 from age.keys.password import PasswordKey
 from age.utils.asciiarmor import AGE_PEM_LABEL, AsciiArmoredInput, AsciiArmoredOutput
 from age.utils.copy_doc import copy_doc
+from age.utils.write_all import write_all
 
 
 def encrypt(
@@ -92,14 +93,17 @@ def encrypt(
         encryptor.write(infile.read())
 
     if ascii_armored:
-        # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
-        outfile = AsciiArmoredOutput(AGE_PEM_LABEL, outfile)  # type: ignore
-
-    outfile.write(ciphertext.getvalue())
-
-    if ascii_armored:
+        # an armored stream which is given up after an error still writes its section, thus not
+        # directly to the output
+        armored = io.BytesIO()
+        armor = AsciiArmoredOutput(AGE_PEM_LABEL, armored)  # type: ignore
+        armor.write(ciphertext.getvalue())
         # the armor is written on closing
-        outfile.close()
+        armor.close()
+        ciphertext = armored
+
+    write_all(outfile, ciphertext.getvalue())
+    outfile.flush()
 
 
 def decrypt(
-- 
2.43.0


From e720aacdc3ec497b67228a1ab81dd7bbf47bc858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:55 +0000
Subject: [PATCH 28/40] fix: report data a non-blocking unbuffered stream did
 not accept

---
 src/age/utils/write_all.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/age/utils/write_all.py b/src/age/utils/write_all.py
index e0cc600..6ff05cf 100644
--- a/src/age/utils/write_all.py
+++ b/src/age/utils/write_all.py
@@ -1,3 +1,5 @@
+import errno
+import io
 import typing
 
 __all__ = ["write_all"]
@@ -7,6 +9,9 @@ def write_all(stream: typing.BinaryIO, data: bytes) -> None:
     """Write all of `data`, even to an unbuffered stream which accepts only a part at a time."""
     while data:
         written = stream.write(data)
+        if written is None and isinstance(stream, io.RawIOBase):
+            # how unbuffered streams in non-blocking mode say that they accepted nothing
+            raise BlockingIOError(errno.EAGAIN, "write could not complete without blocking", 0)
         if written is None or written >= len(data):
             break
         if written <= 0:
-- 
2.43.0


From 23578e72925db5b10b916c6d8734f016c1e64fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 29/40] fix: check Ed25519 keys in OpenSSH files even if
 assertions are disabled

---
 src/age/openssh_keys.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 757ac21..a4075d0 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -128,10 +128,12 @@ def _deserialize_ecdsa_private_key(stream: typing.BinaryIO) -> ec.EllipticCurveP
 def _deserialize_ed25519_private_key(stream: typing.BinaryIO) -> ed25519.Ed25519PrivateKey:
     # <32-bit public key> <64-bit: private key || public key>
     public_key_bytes = _sshbuf_get_cstring(stream)
-    assert len(public_key_bytes) == 32
     private_key_bytes = _sshbuf_get_cstring(stream)
-    assert len(private_key_bytes) == 64
-    assert private_key_bytes[32:] == public_key_bytes
+    # no assertions, these checks must not vanish with "python -O"
+    if len(public_key_bytes) != 32 or len(private_key_bytes) != 64:
+        raise InvalidKeyFile("Wrong length of Ed25519 key")
+    if private_key_bytes[32:] != public_key_bytes:
+        raise InvalidKeyFile("Public keys differ")
     key = ed25519.Ed25519PrivateKey.from_private_bytes(private_key_bytes[:32])
     if key.public_key().public_bytes(Encoding.Raw, PublicFormat.Raw) != public_key_bytes:
         raise InvalidKeyFile("Public key does not belong to private key")
-- 
2.43.0


From 8f0138493a85ffa4eca3a8e6a7489d59f45d578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 30/40] fix: check the footer line even if assertions are
 disabled

---
 src/age/format.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/age/format.py b/src/age/format.py
index d478619..0f19f48 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -60,9 +60,11 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
 
         authenticated += raw_line
 
-    assert line.startswith(FOOTER_PREFIX)
+    if not line.startswith(FOOTER_PREFIX):
+        raise ParserError("Header is not complete.")
     prefix, encoded_mac = line.split()
-    assert prefix == FOOTER_PREFIX
+    if prefix != FOOTER_PREFIX:
+        raise ParserError("Invalid footer line.")
     mac = decode(encoded_mac)
     header.authenticated_bytes = bytes(authenticated)
 
-- 
2.43.0


From 685291ffc50041013a0a35861619cdeaeecff868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:17 +0000
Subject: [PATCH 31/40] fix: check the types of SSH keys even if assertions are
 disabled

---
 src/age/keys/ed25519.py | 6 ++++--
 src/age/keys/rsa.py     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/age/keys/ed25519.py b/src/age/keys/ed25519.py
index 4ff365c..1acee4c 100644
--- a/src/age/keys/ed25519.py
+++ b/src/age/keys/ed25519.py
@@ -52,7 +52,8 @@ class Ed25519PrivateKey(DecryptionKey):
         except ValueError:
             # OpenSSH private keys are special snowflakes
             private_key = load_openssh_private_key(pem_data, passphrase=password)
-        assert isinstance(private_key, Ed25519PrivateKey_)
+        if not isinstance(private_key, Ed25519PrivateKey_):
+            raise ValueError("not an Ed25519 private key")
         return cls(private_key)
 
     def public_key(self):
@@ -89,7 +90,8 @@ class Ed25519PublicKey(EncryptionKey):
     def from_ssh_public_key(cls, ssh_public_key_data: bytes):
         """Load RSA public key encoded according to :rfc:`4253`"""
         public_key = load_ssh_public_key(data=ssh_public_key_data, backend=default_backend())
-        assert isinstance(public_key, Ed25519PublicKey_)
+        if not isinstance(public_key, Ed25519PublicKey_):
+            raise ValueError("not an Ed25519 public key")
         return cls(public_key)
 
     def binary_encoding(self) -> bytes:
diff --git a/src/age/keys/rsa.py b/src/age/keys/rsa.py
index 392ccfa..0606b41 100644
--- a/src/age/keys/rsa.py
+++ b/src/age/keys/rsa.py
@@ -49,7 +49,8 @@ class RSAPrivateKey(DecryptionKey):
         except ValueError:
             # OpenSSH private keys are special snowflakes
             private_key = load_openssh_private_key(pem_data, passphrase=password)
-        assert isinstance(private_key, RSAPrivateKey_)
+        if not isinstance(private_key, RSAPrivateKey_):
+            raise ValueError("not an RSA private key")
         return cls(private_key)
 
     def public_key(self):
@@ -78,7 +79,8 @@ class RSAPublicKey(EncryptionKey):
     def from_ssh_public_key(cls, ssh_public_key_data: bytes):
         """Load RSA public key encoded according to :rfc:`4253`"""
         public_key = load_ssh_public_key(data=ssh_public_key_data, backend=default_backend())
-        assert isinstance(public_key, RSAPublicKey_)
+        if not isinstance(public_key, RSAPublicKey_):
+            raise ValueError("not an RSA public key")
         return cls(public_key)
 
     def binary_encoding(self) -> bytes:
-- 
2.43.0


From e2879fde7f4a69981012d060361f9d71b7ea37aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 32/40] fix: never take the passphrase from the data when there
 is no terminal

---
 src/age/cli.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 7085fd9..cd64980 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -1,10 +1,12 @@
 #!/usr/bin/env python3
 
+import getpass
 import io
 import os
 import stat
 import sys
 import typing
+import warnings
 from datetime import datetime
 
 import click
@@ -20,6 +22,28 @@ from age.utils.copy_doc import copy_doc
 from age.utils.write_all import write_all
 
 
+def _is_stdin(file: typing.BinaryIO) -> bool:
+    try:
+        return os.path.sameopenfile(file.fileno(), sys.stdin.fileno())
+    except (AttributeError, OSError, ValueError):
+        # not backed by file descriptors
+        return file is getattr(sys.stdin, "buffer", None)
+
+
+def _prompt_passphrase(infile: typing.BinaryIO) -> bytes:
+    with warnings.catch_warnings():
+        if _is_stdin(infile):
+            # Without a terminal the passphrase would be read from standard input, that is it
+            # would be taken from the data. getpass warns before it does so.
+            warnings.simplefilter("error", getpass.GetPassWarning)
+        try:
+            passphrase = click.prompt("Type passphrase", hide_input=True, err=True)
+        except getpass.GetPassWarning:
+            print("Cannot ask for a passphrase without a terminal.", file=sys.stderr)
+            sys.exit(1)
+    return passphrase.encode("utf-8")
+
+
 def encrypt(
     recipients: typing.Optional[typing.List[str]] = None,
     infile: typing.Optional[typing.BinaryIO] = None,
@@ -80,8 +104,7 @@ def encrypt(
                 + "the message content and recipient list.",
                 file=sys.stderr,
             )
-        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
-        keys.append(PasswordKey(password))
+        keys.append(PasswordKey(_prompt_passphrase(infile)))
 
     if not keys:
         print("You must specify at least one recipient.", file=sys.stderr)
@@ -143,8 +166,7 @@ def decrypt(
         keys.extend(load_keys_txt(keyfile))
 
     if ask_password:
-        password = click.prompt("Type passphrase", hide_input=True, err=True).encode("utf-8")
-        keys.append(PasswordKey(password))
+        keys.append(PasswordKey(_prompt_passphrase(infile)))
 
     if not keys:
         print("No keys loaded.", file=sys.stderr)
-- 
2.43.0


From 88d5b05f9ed9e04cb9db55cf54172b627374ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 33/40] fix: encrypt and decrypt the payload in time
 proportional to its size

---
 src/age/stream.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/age/stream.py b/src/age/stream.py
index 650b50d..d43d9af 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -25,14 +25,15 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     aead = ChaCha20Poly1305(key)
     blocks = max(math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE), 1)
 
-    encrypted = b""
+    # repeated concatenation of bytes would copy everything for each block
+    encrypted = bytearray()
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
         last_block = nonce == blocks - 1
         packed_nonce = _pack_nonce(nonce, last_block=last_block)
 
         encrypted += aead.encrypt(nonce=packed_nonce, data=block, associated_data=None)
 
-    return encrypted
+    return bytes(encrypted)
 
 
 def stream_decrypt(key: bytes, data: bytes) -> bytes:
@@ -41,11 +42,11 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
     aead = ChaCha20Poly1305(key)
     blocks = max(math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE), 1)
 
-    decrypted = b""
+    decrypted = bytearray()
     for nonce, block in enumerate(_chunk(data, CIPHERTEXT_BLOCK_SIZE)):
         last_block = nonce == blocks - 1
         packed_nonce = _pack_nonce(nonce, last_block=last_block)
 
         decrypted += aead.decrypt(nonce=packed_nonce, data=block, associated_data=None)
 
-    return decrypted
+    return bytes(decrypted)
-- 
2.43.0


From c9d92ca3156d80103b7d8823e600973215376ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:57 +0000
Subject: [PATCH 34/40] fix: collect many small writes in time proportional to
 their size

This also returns the number of bytes, not of items, for writes of e.g. array.array.
---
 src/age/file.py             | 9 ++++-----
 src/age/utils/asciiarmor.py | 9 ++++-----
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 4747e8c..ce3bd4d 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -23,7 +23,7 @@ class Encryptor(io.RawIOBase):
         self._stream: typing.BinaryIO = stream
         self._file_key: bytes = random(16)
 
-        self._plaintext_buffer: bytes = b""
+        self._plaintext_buffer: io.BytesIO = io.BytesIO()
         self._header_written: bool = False
 
         self._write_header(keys)
@@ -35,8 +35,7 @@ class Encryptor(io.RawIOBase):
     def write(self, data):
         if self.closed:
             raise ValueError("write to closed file")
-        self._plaintext_buffer += data
-        return len(data)
+        return self._plaintext_buffer.write(data)
 
     def close(self):
         if not self.closed:
@@ -73,10 +72,10 @@ class Encryptor(io.RawIOBase):
         write_all(self._stream, nonce)
 
         stream_key = self._hkdf(PAYLOAD_HKDF_LABEL, nonce)
-        ciphertext = stream_encrypt(stream_key, self._plaintext_buffer)
+        ciphertext = stream_encrypt(stream_key, self._plaintext_buffer.getvalue())
         write_all(self._stream, ciphertext)
 
-        self._plaintext_buffer = b""
+        self._plaintext_buffer = io.BytesIO()
 
 
 class Decryptor(io.RawIOBase):
diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 86b88db..642b711 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -85,7 +85,7 @@ def write_ascii_armored(file: typing.TextIO, label: str, data: bytes) -> None:
 class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
     def __init__(self, label: str, stream: typing.BinaryIO):
         self._stream: typing.BinaryIO = stream
-        self._plaintext_buffer: bytes = b""
+        self._plaintext_buffer: io.BytesIO = io.BytesIO()
         self._label: str = label
 
     def writable(self):
@@ -94,8 +94,7 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
     def write(self, data):
         if self.closed:
             raise ValueError("write to closed file")
-        self._plaintext_buffer += data
-        return len(data)
+        return self._plaintext_buffer.write(data)
 
     def close(self):
         if not self.closed:
@@ -118,8 +117,8 @@ class AsciiArmoredOutput(io.RawIOBase, typing.BinaryIO):
 
     def _encode_buffer(self):
         text_stream = io.StringIO()
-        write_ascii_armored(text_stream, self._label, self._plaintext_buffer)
-        self._plaintext_buffer = b""
+        write_ascii_armored(text_stream, self._label, self._plaintext_buffer.getvalue())
+        self._plaintext_buffer = io.BytesIO()
 
         # leave the underlying stream open
         write_all(self._stream, text_stream.getvalue().encode("utf-8"))
-- 
2.43.0


From 626c0174643b2d23e81468fef69e193ef4dd206f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 35/40] fix: read long recipient bodies in time proportional to
 their size

---
 src/age/format.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/age/format.py b/src/age/format.py
index 0f19f48..28ecfd6 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -43,6 +43,7 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
         raise ParserError("File signature not found.")
 
     header = Header()
+    bodies: typing.List[typing.List[str]] = []
     authenticated = bytearray(first_line)
 
     line = ""
@@ -52,11 +53,12 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
         if line.startswith(RECIPIENT_PREFIX):
             type, *args = line[len(RECIPIENT_PREFIX) :].split()
             header.recipients.append(Recipient(type, args))
+            bodies.append([])
         elif line.startswith(FOOTER_PREFIX):
             authenticated += FOOTER_PREFIX.encode("utf-8")
             break
-        elif len(header.recipients) > 0:
-            header.recipients[-1].body += line.strip()
+        elif len(bodies) > 0:
+            bodies[-1].append(line.strip())
 
         authenticated += raw_line
 
@@ -68,6 +70,9 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
     mac = decode(encoded_mac)
     header.authenticated_bytes = bytes(authenticated)
 
+    for recipient, body_lines in zip(header.recipients, bodies):
+        recipient.body = "".join(body_lines)
+
     return header, mac
 
 
-- 
2.43.0


From 3d318d13c37f2eff429b33b5e7d925ab224e9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:19 +0000
Subject: [PATCH 36/40] fix: write in time proportional to the size to streams
 which accept little at a time

---
 src/age/utils/write_all.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/utils/write_all.py b/src/age/utils/write_all.py
index 6ff05cf..2d5acb3 100644
--- a/src/age/utils/write_all.py
+++ b/src/age/utils/write_all.py
@@ -16,4 +16,5 @@ def write_all(stream: typing.BinaryIO, data: bytes) -> None:
             break
         if written <= 0:
             raise OSError("stream does not accept any data")
-        data = data[written:]
+        # a copy of the rest for each part would take quadratic time
+        data = memoryview(data)[written:]
-- 
2.43.0


From 6c2a1ebc261eed2439068328f095f9011314f839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:52 +0000
Subject: [PATCH 37/40] fix: no trailing space behind a recipient entry without
 arguments

The age format separates arguments by single spaces, an entry which has no
arguments was written with a space at the end of its line, which strict
implementations refuse.
---
 src/age/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/format.py b/src/age/format.py
index 28ecfd6..93473ad 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -80,7 +80,7 @@ def dump_header(header: Header, stream: typing.BinaryIO, mac: typing.Optional[by
     stream.write(AGE_INTRO.encode("utf-8") + b"\n")
 
     for recipient in header.recipients:
-        line = RECIPIENT_PREFIX + " " + recipient.type + " " + " ".join(recipient.arguments) + "\n"
+        line = " ".join([RECIPIENT_PREFIX, recipient.type, *recipient.arguments]) + "\n"
         stream.write(line.encode("utf-8"))
         if recipient.body:
             wrapped = textwrap.fill(recipient.body, break_on_hyphens=False, width=64)
-- 
2.43.0


From cee1d42dc242aa82c020099b4d8b2d2f50929f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 38/40] fix: do not quote parts of the private key in errors
 about damaged key files

---
 src/age/openssh_keys.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index a4075d0..b6fd30f 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -1,5 +1,6 @@
 import collections
 import io
+import re
 import struct
 import typing
 
@@ -56,6 +57,13 @@ def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
     return int.from_bytes(data, byteorder="big")
 
 
+def _quote_name(name: bytes) -> str:
+    # in a damaged file, what is read as a name may contain parts of the private key
+    if re.fullmatch(rb"[A-Za-z0-9@._-]{0,64}", name):
+        return repr(name)
+    return "(malformed name)"
+
+
 def _deserialize_rsa_private_key(stream: typing.BinaryIO) -> rsa.RSAPrivateKey:
     rsa_n = _sshbuf_get_bignum2(stream)
     rsa_e = _sshbuf_get_bignum2(stream)
@@ -110,7 +118,7 @@ def _deserialize_ecdsa_private_key(stream: typing.BinaryIO) -> ec.EllipticCurveP
     }
 
     if curve_name not in curves:
-        raise InvalidKeyFile(f"Unsupported ECDSA curve {curve_name!r}")
+        raise InvalidKeyFile(f"Unsupported ECDSA curve {_quote_name(curve_name)}")
 
     curve = curves[curve_name]
 
@@ -157,7 +165,7 @@ def _decrypt_key(
         raise InvalidKeyFile("Encrypted SSH key without KDF function name")
 
     if kdfname != b"bcrypt":
-        raise InvalidKeyFile(f"Unsupported private key encryption KDF {kdfname!r}")
+        raise InvalidKeyFile(f"Unsupported private key encryption KDF {_quote_name(kdfname)}")
 
     Suite = collections.namedtuple(
         "Suite", ("algorithm", "mode", "key_bytes", "block_bytes", "iv_bytes")
@@ -169,7 +177,7 @@ def _decrypt_key(
     }
 
     if ciphername not in suites:
-        raise NotImplementedError(f"Unsupported private key encryption cipher {ciphername!r}")
+        raise NotImplementedError(f"Unsupported private key encryption cipher {_quote_name(ciphername)}")
 
     suite = suites[ciphername]
 
@@ -265,7 +273,7 @@ def load_openssh_private_key(
     elif key_type == b"ssh-ed25519":
         key = _deserialize_ed25519_private_key(decrypted_stream)
     else:
-        raise NotImplementedError(f"SSH key type {key_type!r} not implemented yet.")
+        raise NotImplementedError(f"SSH key type {_quote_name(key_type)} not implemented yet.")
 
     # discard key comment
     _sshbuf_get_cstring(decrypted_stream)
-- 
2.43.0


From 1f40d5ce8021441d3cfaf9cf57c81caed3ac9e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:07 +0000
Subject: [PATCH 39/40] fix: do not quote the content of overlong armor lines
 in errors

---
 src/age/utils/asciiarmor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 642b711..312faab 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -51,7 +51,7 @@ def read_ascii_armored(
                     if strict_line_length:
                         for i, buffer_line in enumerate(buffer):
                             if len(buffer_line) > PEM_LINE_LENGTH:
-                                raise ValueError(f"PEM line too long: {buffer_line}")
+                                raise ValueError("PEM line too long")
                             elif len(buffer_line) < PEM_LINE_LENGTH and i != len(buffer) - 1:
                                 raise ValueError("PEM line too short")
 
-- 
2.43.0


From 6ffb3d4270d72eee1c0c454e2e8b894ffaddaad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:06 +0000
Subject: [PATCH 40/40] fix: decrypt lost data without an error on output
 streams which accept only a part of it

---
 src/age/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index cd64980..f0c09f9 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -177,7 +177,8 @@ def decrypt(
         infile = AsciiArmoredInput(AGE_PEM_LABEL, infile)  # type: ignore
 
     with Decryptor(keys, infile) as decryptor:
-        outfile.write(decryptor.read())
+        write_all(outfile, decryptor.read())
+    outfile.flush()
 
 
 def generate(outfile: typing.Optional[typing.TextIO] = None) -> None:
-- 
2.43.0

