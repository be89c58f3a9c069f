#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the texts stay readable and reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p("C01","DSTU 34.311 digest value, independent of how the message is supplied",
  "For every message and every substitution table in force from the start of the message (the DSTU default unless another was set), the digest produced through EVP equals the GOST 34.311-95 value, whatever the split of the message into updates, including empty updates, unaligned pieces and messages longer than 2^32 bits. Setting a table is refused unless exactly 64 packed bytes are given, and a refused setting changes nothing.",
  ["inputs","histories"],"every message, every 64-byte packed S-box, every sequence of update sizes",
  "The tests hash a few short strings with one or two splits; length counting, carry of the checksum, remainder handling and S-box row order are only wrong for particular lengths, splits and data.",
  ["dstulib/gost/gosthash.c","dstulib/gost/gost89.c","dstulib/params.c","engine/md.c"],
  [("incremental hashing and finalisation","dstulib/gost/gosthash.c: hash_block, finish_hash, hash_step"),("S-box unpacking","dstulib/params.c: unpack_sbox")],
  [("H,S,len,left,remainder","running hash, checksum, length and buffered tail of a digest context","dstulib/gost/gosthash.h")],
  ["EVP_DigestUpdate/Final"])
p("C02","Digest contexts are independent; copies and re-initialisation are exact",
  "A copy of a digest context taken at any point behaves exactly as the original would have, and from then on nothing done to one context (updating, finalising, re-initialising, setting a table, freeing, copying over it) changes the result of another. Re-initialising a context starts a new message with the default table whatever it was used for before.",
  ["histories"],"every interleaving of init, update, set-table, copy, finalise and free over any number of contexts",
  "The tests never copy a context mid-message, interleave two contexts or reuse one after setting a table; a shared pointer or stale field shows only in such histories.",
  ["engine/md.c","dstulib/gost/gosthash.c"],
  [("context copy re-targets the cipher pointer","engine/md.c: dstu_md_copy"),("init resets state and table","engine/md.c: dstu_md_init")],
  [("dstu_digest_ctx","hash state plus the cipher tables it points to","engine/md.c")],["EVP_MD_CTX_copy_ex","EVP_DigestInit_ex"])
p("C03","GOST 28147 CFB output is the standard's, for every chunking and in place",
  "For every 256-bit key, 8-byte IV, substitution table and message, encryption produces the GOST 28147-89 64-bit CFB ciphertext without key meshing and decryption restores the message. The result does not depend on how the data is split into updates, nor on whether output overwrites the input buffer.",
  ["inputs","histories"],"every key, IV, S-box, message and sequence of non-empty update sizes, both directions, separate or identical buffers",
  "The tests encrypt fixed vectors in one or two calls; position bookkeeping across partial blocks, in-place feedback and S-box dependence need particular splits and data.",
  ["engine/cipher.c","dstulib/gost/gost89.c"],
  [("partial-block bookkeeping","engine/cipher.c: dstu_cipher_do_cipher"),("block loop","dstulib/gost/gost89.c: gost_enc_cfb, gost_dec_cfb")],
  [("iv,buf,num","feedback register, current gamma and unused gamma bytes","EVP_CIPHER_CTX")],["EVP_CipherUpdate"])
p("C04","Cipher context settings hold across any order of re-initialisation and copies",
  "What a cipher context outputs depends only on the direction, key, IV and substitution table last set on it and on the data processed since the stream was last started: supplying a key or an IV, or setting a table, restarts the stream from the IV last set, in whatever order and in however many calls they are supplied, and settings that are not supplied again stay in force until the context is reset. A copied context continues exactly as the original would and the two do not affect each other.",
  ["histories"],"every sequence of init calls with any subset of cipher/key/IV, table settings, data and copies over several contexts",
  "The tests set everything in one init call on a fresh context; stale gamma, a lost table or shared state appear only after re-keying, re-IV-ing or copying mid-block.",
  ["engine/cipher.c"],
  [("init handles any subset of key and IV","engine/cipher.c: dstu_cipher_init"),("table control restarts the stream","engine/cipher.c: dstu_cipher_ctrl")],
  [("original_iv, iv, buf, num","IV last set, register, gamma, position","EVP_CIPHER_CTX")],["EVP_CipherInit_ex","EVP_CIPHER_CTX_ctrl","EVP_CIPHER_CTX_copy"])
p("C05","Cipher ASN.1 parameters carry IV and table exactly, and bad ones are refused",
  "Exporting a context's algorithm parameters gives the DER SEQUENCE of the IV last set and the 64-byte packed table in force, and importing such parameters into any context puts exactly that IV and table in force, so that data encrypted under the first is decrypted under the second once the key is set, before or after the import. Parameters of any other shape are refused and leave the context as it was.",
  ["inputs","histories"],"every IV and S-box, every order of import and keying, every malformed parameter value",
  "No test exports or imports parameters with a non-default table or in another order; only the PBES2 file round trip with the default is exercised.",
  ["engine/cipher.c","dstulib/params.c"],
  [("export","engine/cipher.c: dstu_cipher_set_asn1_parameters"),("import and checks","engine/cipher.c: dstu_cipher_get_asn1_parameters"),("table recovery from the expanded form","dstulib/params.c: dstu_get_sbox, pack_sbox")],
  [],["EVP_CIPHER_param_to_asn1","EVP_CIPHER_asn1_to_param"])
p("C06","Every signature made verifies and is a correctly formed DSTU 4145 signature",
  "For every key on any supported curve, either byte order and every hash or message, a signature that is produced is a DER OCTET STRING of exactly twice the byte length of the curve order, satisfies the DSTU 4145 verification equation for that key and hash (the message being hashed with the key's own table), and is accepted by verification with the matching public key. The announced maximum size is never exceeded, asking for the size produces no signature, and a buffer that is too small is refused without being overrun.",
  ["inputs"],"every curve (ten named and custom ones), byte order, key, hash value and length, message, table and random nonce",
  "The tests sign a handful of messages on a few curves and check them only with the library's own verifier, so consistent errors in both directions and rare values (short r or s, zero hash, hash longer than the field) are invisible.",
  ["engine/sign.c","engine/pmeth.c","engine/md.c"],
  [("signing","engine/sign.c: dstu_do_sign"),("framing and byte order","engine/pmeth.c: dstu_pkey_sign"),("hash with the key's table","engine/md.c: dstu_md_init")],
  [],["EVP_PKEY_sign","EVP_DigestSign*"])
p("C07","Verification accepts exactly the valid signatures",
  "Verification of a signature, supplied as a DER OCTET STRING or as raw octets, reports success exactly when both halves, read in the key's byte order, are integers between 1 and the order minus one that satisfy the DSTU 4145 verification equation for that hash and public key. Every other input, however malformed, is reported as not valid, without crashing or reading beyond it.",
  ["inputs"],"every public key, hash and signature octet string, including forged values 0, n, n+1, r+n, swapped halves, wrong byte order, truncated and extended encodings",
  "The tests only flip a bit of one signature; range checks, the point at infinity, truncation of the field element and framing rules each need a purpose-built signature.",
  ["engine/sign.c","engine/pmeth.c"],
  [("range checks and equation","engine/sign.c: dstu_do_verify"),("unframing","engine/pmeth.c: dstu_pkey_verify")],[],["EVP_PKEY_verify","EVP_DigestVerify*"])
p("C08","Key generation honours its settings and yields valid keys or fails",
  "A generated key has a private value between 1 and the order minus one and the public point that is minus that multiple of the base point, on exactly the curve and with exactly the table last requested on its context (named by string, given as a group, or the 257-bit default curve and table), also through a duplicated context. A refused request (unknown curve, malformed table) changes nothing that was set before, and if the random source fails, generation fails.",
  ["inputs","histories","fault_sequences"],"every sequence of curve and table requests valid and invalid, context duplication, every output of the random source including its failure",
  "The tests generate a few keys on named curves and never look at the numbers, at refused requests, at duplicated contexts or at the random source.",
  ["engine/pmeth.c","dstulib/params.c","dstulib/key.c"],
  [("range loop","dstulib/params.c: dstu_generate_key"),("public key derivation","dstulib/params.c: dstu_add_public_key"),("settings","engine/pmeth.c: dstu_pkey_ctrl, dstu_pkey_ctrl_str, dstu_pkey_copy")],
  [("DSTU_KEY_CTX","requested group and table","dstulib/key.h")],["EVP_PKEY_keygen","EVP_PKEY_CTX_ctrl_str"])
p("C09","Keys and parameters survive encoding: exact DER out, same key back",
  "For every key the encoded SubjectPublicKeyInfo and PKCS#8 are the DER that DSTU 4145 prescribes: named curves by OID, other curves by explicit field, a, b, order and compressed base point, a table only when it is not the default, octets reversed for the little-endian algorithm. Decoding that DER gives back the same curve, table, private value and public point, for every public point a key can have, including the one with x = 0 (the single point with x = 1 that compresses to all zeros has no encoding of its own and is refused).",
  ["inputs"],"every private value, every curve point, named and custom trinomial and pentanomial curves with a = 0 or 1, both byte orders, every table",
  "The tests round-trip a few keys on named curves; point compression depends on traces that differ per point and curve, and explicit curve parameters are hardly exercised.",
  ["engine/ameth.c","dstulib/key.c","dstulib/compress.c","dstulib/asn1.c"],
  [("parameter encoding","dstulib/key.c: asn1_from_key, key_from_asn1, group_from_asn1"),("point compression","dstulib/compress.c: dstu_point_compress, dstu_point_expand"),("key encoding","engine/ameth.c: dstu_asn1_pub_encode, dstu_asn1_priv_encode and their decoders")],
  [],["i2d_PUBKEY, d2i_PUBKEY, EVP_PKEY2PKCS8, EVP_PKCS82PKEY"])
p("C10","Malformed key encodings are refused, never half-accepted and never a crash",
  "Decoding any octet string as a DSTU 4145 public key, private key or parameter set either fails cleanly or yields a key whose public point lies on its curve and which encodes and decodes again to itself. In particular a table that is not 64 bytes, an unknown curve, a coefficient a other than 0 or 1, parameters that are not the prescribed SEQUENCE, a point octet string shorter than the field and an octet string that is not a point of the curve are refused.",
  ["inputs"],"every byte string, generated as targeted mutations of valid encodings and as random bytes",
  "There are no negative decoding tests at all.",
  ["engine/ameth.c","dstulib/key.c","dstulib/compress.c"],
  [("checks on decoding","dstulib/key.c: key_from_asn1, group_from_asn1"),("point expansion checks","dstulib/compress.c: dstu_point_expand"),("type checks","engine/ameth.c: dstu_asn1_pub_decode, dstu_asn1_priv_decode")],[],["d2i_PUBKEY, d2i_PKCS8_PRIV_KEY_INFO + EVP_PKCS82PKEY"])
p("C11","The random generator is the DSTU 4145 Annex A construction, one unbroken stream",
  "Once seeded, the bytes delivered by the engine's generator are exactly the successive outputs of the DSTU 4145 bit generator for its 40-byte seed and start time: bit by bit, least significant first, continuing across calls of any sizes without repeating, skipping or restarting. Seeding happens once, from the default OpenSSL source, and adding seed material or querying status never disturbs the stream.",
  ["inputs","histories"],"every seed and start time, every sequence of request sizes (including zero) mixed with status, seed and add calls",
  "The tests only check that the generator returns success; the stream's value and continuity are never compared with the standard.",
  ["engine/rbg.c","dstulib/gost/gost89.c"],
  [("state update","engine/rbg.c: dstu_rbg_get_bit"),("one-time seeding","engine/rbg.c: dstu_rbg_init, dstu_rbg_status_nolock")],
  [("I, s, cryptor, initialized","date block, state, keyed cipher and seeded flag","engine/rbg.c")],["RAND_bytes with the engine as default"])
p("C12","The generator stays sound under threads, seeding failure, cleanup and fork",
  "Requests made concurrently by any number of threads, first use included, receive disjoint consecutive parts of one stream, none delivered twice. If the seed cannot be obtained the request fails, a later one can succeed, after cleanup the generator re-seeds afresh and keeps working, and a child process never delivers the stream its parent delivers.",
  ["schedules","fault_sequences","histories"],"every interleaving of first use, requests, status calls, cleanup and fork over several threads, with the seed source failing at any point",
  "The tests use the generator from one thread, once; races, failed seeding, use after cleanup and forking never occur.",
  ["engine/rbg.c"],
  [("lock around state","engine/rbg.c: dstu_lock, dstu_unlock"),("lazy seeding under the lock","engine/rbg.c: dstu_rbg_bytes"),("cleanup","engine/rbg.c: dstu_rbg_cleanup")],
  [("dstu_rand_lock, initialized","lock and seeded flag","engine/rbg.c")],["RAND_METHOD bytes/status/cleanup"])
p("C13","The engine can be loaded, used, finished and loaded again in any order",
  "Through any sequence of obtaining, initialising, using, finishing and releasing the engine, every lookup of the DSTU digest, cipher, key algorithms and generator either fails cleanly or gives a working algorithm with the advertised name, sizes and flags, and nothing that is still referenced is freed or freed twice. Requests for algorithms the engine does not offer are refused. As long as the engine is loaded, the errors it reports carry the name of its library and the text of their reason.",
  ["histories"],"every sequence of ENGINE_by_id, init, finish, free, default registration and algorithm use",
  "Every test loads the engine once and exits; teardown and re-initialisation are never followed by use.",
  ["engine/dstu.c","engine/err.c"],
  [("creation and release of methods","engine/dstu.c: dstu_md_get, dstu_cipher_get, dstu_engine_finish, dstu_bind"),("error texts","engine/err.c: ERR_load_DSTU_strings, ERR_unload_DSTU_strings")],
  [("dstu_md, dstu_cipher, method tables","lazily created method objects","engine/dstu.c")],["ENGINE_*, EVP_get_digestbyname, EVP_get_cipherbyname"])
p("C14","Java key stores: all entries, in order, exactly when both passwords are right",
  "Reading a JKS or JCEKS store succeeds exactly when the store is well formed, the storage password matches its integrity digest and the key password opens every key entry; it then returns every private key and every certificate of the store, in store order, each key followed in its list by the second DSTU key its attributes may carry. Passwords are taken as non-empty UTF-8 of the given length, and the same store gives the same result from memory, from a file and from a BIO.",
  ["inputs"],"every store content (number, kind and order of entries, chains, names), every password including non-ASCII ones, every single-byte corruption and every truncation",
  "The tests read one store file with its correct passwords.",
  ["keylib/jks.c","keylib/utils.c","keylib/keystore.c"],
  [("entry parsing","keylib/jks.c: parseEntry, parseKey, parseCert"),("key protector","keylib/jks.c: fromKeyProtector"),("integrity digest","keylib/jks.c: whiteHash")],[],["parseJKS, readJKS, readJKS_bio"])
p("C15","PKCS#12: all keys and certificates, in order, exactly with the right password",
  "Reading a PKCS#12 container succeeds exactly when it decodes, its MAC matches the password and every key and certificate bag in it can be opened, and it contains at least one of them; it then returns all private keys and all certificates in container order, from plain and encrypted safes and nested safe bags alike. The same container gives the same result from memory, from a file and from a BIO.",
  ["inputs"],"every arrangement of bags and safes, plain, shrouded and nested, every password, corruption and truncation",
  "The tests read one container with its correct password.",
  ["keylib/pkcs12.c","keylib/keystore.c"],
  [("counting and extraction agree","keylib/pkcs12.c: countKeysCerts, fromSafes, fromBag"),("MAC check","keylib/pkcs12.c: parsePKCS12")],[],["parsePKCS12, readPKCS12, readPKCS12_bio"])
p("C16","Key-6.dat: the right password and only it recovers the stored keys",
  "Reading an IIT Key-6 container succeeds exactly when it has the prescribed structure and type and decrypts, under the key derived from the password by ten thousand rounds of DSTU 34.311 and GOST 28147 in simple substitution mode, to a DSTU private key; it then returns that key and the second key carried in its attributes, when there is one, with the values stored. This holds with and without the padding field and for any position of the attribute values, from memory, file and BIO alike.",
  ["inputs"],"every stored key, curve, attribute set, padding length and password, every corruption and truncation",
  "The tests read one container with its correct password.",
  ["keylib/key6.c","keylib/utils.c","keylib/iit_asn1.c"],
  [("key derivation and decryption","keylib/key6.c: pkdf, decryptKey6"),("attribute key","keylib/utils.c: pkeyFromAttributes, getPrivateKeyNum, makeECGROUPFromSpec")],[],["parseKey6, readKey6, readKey6_bio"])
p("C17","Container parsers are memory-safe on any input and fail without side effects",
  "For every byte string, length and password, reading it as a JKS, PKCS#12 or Key-6 container returns success or failure in bounded time without reading or writing outside the given buffer. On failure nothing is handed to the caller: the output handle keeps the value it had and no object remains allocated on its behalf.",
  ["inputs"],"every byte string: truncations at every offset, every length field set to extreme values, mutated and random data, data ending at an unreadable page",
  "No malformed container is ever parsed in the tests.",
  ["keylib/jks.c","keylib/pkcs12.c","keylib/key6.c","keylib/utils.c"],
  [("bounds of entry fields","keylib/jks.c"),("failure paths","keylib/jks.c, keylib/pkcs12.c, keylib/key6.c")],[],["parseJKS, parsePKCS12, parseKey6"])
p("C18","A key store hands out exactly its entries and owns them",
  "For a store returned by any reader, positions below the reported counts give distinct, usable keys and certificates that stay valid until the store is freed, any other position gives NULL, and reading entries in any order or repeatedly does not change them. Freeing the store releases everything it owns once, while keys and certificates for which the caller holds its own reference survive.",
  ["inputs","histories"],"every store size and position up to the largest size_t, every order of lookups, references taken and frees",
  "The tests look at valid positions of three fixed files.",
  ["keylib/keystore.c"],
  [("bounds-checked lookup","keylib/keystore.c: KeyStoreGetKey, KeyStoreGetCert"),("append moves ownership","keylib/keystore.c: KeyStoreAppend"),("release","keylib/keystore.c: KeyStoreFree")],[],["KeyStoreKeyNum, KeyStoreGetKey, KeyStoreGetCert, KeyStoreFree"])
p("C19","Signature nonces are fresh, in range and uniform, or signing fails",
  "Every signature uses its own secret nonce drawn from the whole range 1..n-1 with the process's random source: no two signatures by any keys share one except by chance, no bit of it is fixed, and signing terminates for every hash and every outcome of the random source. If the random source fails, signing fails and no signature is output.",
  ["inputs","histories","fault_sequences"],"every sequence of signatures over keys, hashes and processes, every behaviour of the random source (zeros, ones, boundary values, failure at any draw)",
  "Tests see only that signatures verify, which a constant or short nonce also satisfies while revealing the private key.",
  ["engine/sign.c"],
  [("nonce loop","engine/sign.c: dstu_do_sign"),("hash to field element never zero","engine/sign.c: hash_to_field")],[],["EVP_PKEY_sign"])
p("C20","Certificates, requests, PKCS#7 and CMS by DSTU keys verify; altered do not",
  "X.509 certificates, certificate requests, PKCS#7 and CMS signed messages made with a DSTU key name the DSTU signature and digest algorithms and verify with the matching key or certificate, for either byte order and any table of the key. Any change of the signed content or attributes, or use of another key, makes verification fail.",
  ["inputs","histories"],"every message, key, curve, byte order and table, attached, detached, with and without signed attributes, streamed or not",
  "The tests verify one stored CMS message and sign one.",
  ["engine/ameth.c","engine/pmeth.c","engine/md.c"],
  [("algorithm identifiers","engine/ameth.c: dstu_asn1_pkey_ctrl"),("digest restrictions and hooks","engine/pmeth.c: dstu_pkey_ctrl")],[],["X509_sign/X509_verify, PKCS7_sign/PKCS7_verify, CMS_sign/CMS_verify"])
p("C21","HMAC, PBKDF2, PBES2 and CMS encryption work over the DSTU algorithms",
  "HMAC and PBKDF2 over the DSTU digest equal their RFC definitions applied to DSTU 34.311, for every key, salt, iteration count and length. Private keys encrypted with PBES2 under the DSTU cipher, and data encrypted with CMS under it, name the DSTU algorithms, are decrypted by the right password or key to the original, whatever the length of the data, and by no other password to a key.",
  ["inputs"],"every key, password, salt, iteration count, output length and content length",
  "The tests decrypt two stored files; nothing compares the derived values with the definition.",
  ["engine/cipher.c","engine/md.c","engine/dstu.c"],
  [("PRF registration","engine/dstu.c: dstu_bind (EVP_PBE_alg_add_type)"),("PRF choice and parameters","engine/cipher.c: dstu_cipher_ctrl, dstu_cipher_set_asn1_parameters")],[],["HMAC, PKCS5_PBKDF2_HMAC, PEM_write_bio_PKCS8PrivateKey, CMS_EncryptedData_encrypt"])
p("C22","Key comparison says equal exactly for the same curve, table and public point",
  "Comparing two DSTU keys of one algorithm reports equality exactly when curve, effective table (an absent table being the default one) and public point coincide, and comparing their parameters exactly when curve and effective table do. A key compares equal to itself after any encoding and decoding, and keys of different byte orders or algorithms are reported as of different type. Copying parameters between keys that have them succeeds exactly when they are equal and changes neither key.",
  ["inputs","histories"],"every pair of keys over curves, tables, points and encodings",
  "The tests compare no keys.",
  ["engine/ameth.c"],
  [("comparison","engine/ameth.c: dstu_asn1_param_cmp, dstu_asn1_pub_cmp")],[],["EVP_PKEY_eq, EVP_PKEY_parameters_eq, EVP_PKEY_copy_parameters"])
p("C23","The ten named curves, sizes and defaults are the standard's",
  "Each of uacurve0 to uacurve9 denotes the curve of DSTU 4145 with that number: field polynomial, a, b, base point and order; the base point lies on the curve, its order is the given prime, and key size and signature size follow from them. A curve given explicitly with the same parameters is recognised as the named one and a curve differing in any parameter is not.",
  ["inputs","configurations"],"all ten curves and every explicit parameter set differing from one of them in a single component",
  "The tests sign on some of the curves, which also succeeds with many wrong parameters.",
  ["dstulib/params.c"],
  [("curve table","dstulib/params.c: dstu_curves, group_from_named_curve, group_from_nid"),("recognition","dstulib/params.c: curve_nid_from_group")],[],["EVP_PKEY_CTX_ctrl_str curve, EVP_PKEY_bits, EVP_PKEY_size, i2d_PUBKEY"])
p("C24","Independent operations may run concurrently without disturbing each other",
  "Digests, ciphers, signing, verification, key generation, key decoding and container reading performed at the same time by different threads on their own objects, or by several threads verifying with one shared public key, give the results they would give alone.",
  ["schedules"],"every interleaving of any mix of operations on distinct objects, including the first use of the engine's algorithms",
  "All tests are single-threaded.",
  ["engine/dstu.c","engine/md.c","engine/cipher.c","engine/sign.c","engine/rbg.c","dstulib/gost/gost89.c","dstulib/gost/gosthash.c","keylib/jks.c"],
  [("no shared mutable state besides the generator","all operation code"),("lock in the generator","engine/rbg.c")],[],["all EVP operations"])
p("C25","Every operation, successful or refused, gives back what it allocated",
  "Repeating any operation of the engine or key library (digest, cipher, key generation, signing, verification, encoding, decoding, comparison, reading containers), with valid or invalid input, and freeing what it returned leaves the amount of allocated memory unchanged. Freed contexts and keys are not touched again.",
  ["inputs","histories"],"every operation with every kind of valid and invalid input, repeated any number of times",
  "Tests run each operation once and do not look at memory.",
  ["dstulib/key.c","engine/ameth.c","engine/pmeth.c","engine/sign.c","keylib/jks.c","keylib/utils.c","keylib/pkcs12.c","keylib/key6.c"],
  [("release on every path","err: labels throughout")],[],["CRYPTO_set_mem_functions"])
p("C26","Printed keys show the key itself, and public text never the private value",
  "Printing a DSTU key as text shows the key's own field polynomial, coefficients, base point and order, with the public point when printed as public or private key, and the private value only when printed as private key. Printing changes nothing of the key.",
  ["inputs"],"every key (private, public, parameters only) on every curve, in the three ways of printing and with any indentation",
  "The tests print no keys.",
  ["engine/ameth.c"],
  [("printing","engine/ameth.c: dstu_asn1_param_print, dstu_asn1_priv_print, dstu_asn1_pub_print")],[],["EVP_PKEY_print_public, EVP_PKEY_print_private, EVP_PKEY_print_params"])
p("C27","Signing and verifying contexts sign or judge exactly the message they were given",
  "Every signature a signing context delivers, and every verdict of a verifying one, is for exactly the octets supplied to that context since its last start, hashed under the table in force for it (its key's, unless set otherwise), and for the key it was started with, even if the caller has since released that key. Delivering does not end the message; copies continue independently; restarting begins a new message with the key's own table; a refused start, table or digest changes nothing else; single-hash contexts and their duplicates keep their key and direction.",
  ["histories"],"every interleaving of starts, pieces, table settings, copies, deliveries, restarts and releases over any number of contexts and keys",
  "The tests sign and verify in one straight line with one context; sharing between copies, stale tables and state left by earlier values show only in longer histories.",
  ["engine/pmeth.c","engine/md.c","engine/sign.c"],
  [("context set up with the key's table","engine/md.c: dstu_md_init, dstu_md_copy"),("signature contexts","engine/pmeth.c: dstu_pkey_sign, dstu_pkey_verify, dstu_pkey_copy, dstu_pkey_ctrl")],
  [("DSTU_KEY_CTX","settings of a key context","dstulib/key.h")],["EVP_DigestSign*, EVP_DigestVerify*, EVP_PKEY_sign, EVP_PKEY_verify, EVP_MD_CTX_copy_ex, EVP_PKEY_CTX_dup"])
p("C28","Running out of memory is refused cleanly, never answered wrongly",
  "Whichever memory allocations are refused while an operation of the engine or key library runs, the operation does not crash; it either refuses, or does its whole job with the result it has when memory is ample (the same key with the same table and public point, the same encoding up to spelling out a curve instead of naming it, a valid verdict only for a valid signature). What it only reads stays as it was, a refused operation succeeds when repeated with memory, and nothing remains allocated on behalf of a refused one.",
  ["inputs","fault_sequences"],"every operation, with every one of its allocation requests refused, alone or with all that follow it",
  "Allocations do not fail in the tests.",
  ["dstulib/key.c","dstulib/compress.c","dstulib/params.c","engine/ameth.c","engine/pmeth.c","engine/sign.c","keylib/keystore.c","keylib/jks.c","keylib/utils.c","keylib/key6.c","keylib/pkcs12.c"],
  [("unwinding","err: labels throughout"),("compression and expansion of points","dstulib/compress.c: bn_trace, dstu_point_compress, dstu_point_expand"),("stores","keylib/keystore.c: KeyStoreNew, KeyStoreAppend")],[],["CRYPTO_set_mem_functions","all EVP operations"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
