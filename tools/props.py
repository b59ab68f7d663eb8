#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, M = [], []

def prop(id, title, statement, over, text, tests, files, mech, note=None, tech=None, na=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": tests, "anchors": a})
    M.append((id, note, tech, na))

T = "symbolic execution of the real Go code (go/ssa) with SMT decision (z3), counterexamples replayed natively"
TR = "symbolic execution of the real Go code (go/ssa) for two related inputs with SMT decision (z3), counterexamples replayed natively"
TS = "symbolic execution of the real Go code under symbolic schedules with SMT decision (z3), counterexamples replayed natively"
TF = "symbolic execution of the real Go code with a symbolic fault schedule and SMT decision (z3), counterexamples replayed natively"

ST = [("sealed object", "ciphertext and associated data of an object under (object id, DataTypeSealedObject)", "utility.go"),
      ("sealed access", "encrypted access list with the wrapped object key under (object id, DataTypeSealedAccess)", "utility.go")]

prop("C01", "Decrypt returns what was last stored under an object's identifier",
     "After a successful Encrypt, and after every successful Update, Decrypt by an authorized caller returns exactly the plaintext and associated data of that call, also through another instance with the same keys over the same storage. "
     "Operations on one object never change another, and identifiers are never reused. A deleted object cannot be read, updated, or brought back, and deleting it again succeeds.",
     ["inputs", "histories"], "all plaintexts and associated data (of the bounded lengths), all histories of Encrypt, Update, Decrypt, Delete and re-opening by two users over two objects up to the bound",
     "the tests run a handful of fixed plaintexts through fixed sequences", ["d1.go", "utility.go", "data/object.go", "crypto/cryptor.go"],
     [("Encrypt/Update/Decrypt/Delete", "d1.go"), ("getSealedObject/putSealedObject", "utility.go"), ("Object.Seal, SealedObject.Unseal", "data/object.go")],
     "Holds for every byte of the plaintext and associated data for lengths 0-33 and every history of up to 3 (quick) or 4 (thorough) operations, and for 70 (quick) or 140 objects side by side. AES is ideal; storage is faithful.", T, state=ST)

prop("C02", "Access is granted exactly by a scoped membership in the access list",
     "Decrypt, Update, Delete, GetAccessGroups, AddGroupsToAccess, RemoveGroupsFromAccess and AuthorizeIdentity succeed exactly when the token yields an identity whose own scopes contain the scope the operation requires and at least one of whose identifiers (its own, or one of its groups) is on the object's access list and has that scope (the identity's own scopes, or that group's). "
     "Encrypt needs only the encrypt scope and puts the caller's own identifier on the new list. The decision is made anew on every call from the identity as it is then, and refusals carry the matching documented error.",
     ["inputs", "histories", "configurations"], "all 64-bit scope values, all access lists and group memberships over the bounded set of identifiers, all operations",
     "the tests try a few scopes and groups; the rule quantifies over all combinations of scopes, memberships and list contents", ["d1.go", "utility.go", "id/id.go", "id/scope.go", "data/access.go"],
     [("verifyAccess", "utility.go"), ("authorizeAccess", "utility.go"), ("GetIDs/GetIDScope", "id/id.go"), ("Contains, ScopeUnion", "id/scope.go")],
     "Scopes are symbolic 64-bit values, identifiers symbolic strings; up to 2 groups per caller and 3 entries per list, all symbolic, and callers of up to 130 groups on lists of up to 260 names. The rule is restated independently in the harness.", T)

prop("C03", "A refused operation returns nothing, changes nothing and reveals nothing",
     "When an operation on an object is refused because the caller is not authenticated, lacks the scope, or is not on the access list, it returns no plaintext, associated data or group list and makes no change in the storage. "
     "When authentication or the caller's scope already fails, the storage is not even read, so the refusal does not depend on whether the object exists. The error of a refusal is the same for every object, list and contents.",
     ["inputs", "histories"], "all scopes, memberships, access lists and operations as in C02",
     "the tests check the error, not the absence of side effects, and for single cases", ["d1.go", "utility.go"],
     [("order of verifyAccess, getSealedAccess, authorizeAccess", "d1.go")],
     "Same case space as C02; the storage is recorded call by call and compared byte by byte.", T)

prop("C04", "The access list is exactly the set built by the calls",
     "After any sequence of Encrypt with groups, AddGroupsToAccess, RemoveGroupsFromAccess and Update, GetAccessGroups returns exactly the creator's identifier and the groups given at creation plus those added minus those removed, each name compared byte by byte. "
     "Adding twice, removing what is absent, and updating the contents change nothing else. A change takes effect with the next call, for the caller too, and membership given to one name never extends to another.",
     ["inputs", "histories"], "all group names (symbolic strings up to the bound), all sequences of modifications up to the bound",
     "tests use a few fixed names in fixed order", ["d1.go", "data/access.go"],
     [("AddGroups/RemoveGroups/ContainsGroups", "data/access.go"), ("AddGroupsToAccess/RemoveGroupsFromAccess", "d1.go"), ("JSON form of the list", "data/access.go")],
     "Names that are valid UTF-8, lists of up to 260 names; names with invalid UTF-8 are recorded as a known finding (they are stored with replacement characters).", T)

prop("C05", "Storage cannot alter objects or access undetected",
     "If the storage changes any stored object or access record in any way, or answers with a record of another object, of another kind or of an older version, Decrypt fails or returns contents (plaintext together with its associated data) that were genuinely stored under that very object identifier in one single version. "
     "No identity is ever authorized that was not on one of that object's own genuine access lists. Access changes made over altered records fail or act on a genuine list.",
     ["inputs", "histories", "fault_sequences"], "all modifications of each field (any difference of bytes, other lengths) and all exchanges and replays among the records of two objects and their versions",
     "tests flip a few chosen bits of single fields", ["utility.go", "data/object.go", "data/access.go", "crypto/cryptor.go", "crypto/aes.go", "crypto/kwp.go"],
     [("object id bound as associated data", "data/access.go, data/object.go"), ("identifier set from the request, not the record", "utility.go"), ("AES-GCM, AES-KWP", "crypto/")],
     "Forgery is decided for ideal AES-GCM/AES (any ciphertext not produced by the code is rejected except where inputs coincide).", T, state=ST)

prop("C06", "What storage sees of objects is independent of their secrets",
     "The bytes sent to the storage for an object do not depend on the plaintext, the group names, the caller or the keys, other than through their lengths; only the associated data, the object identifier and the kind of record are visible. "
     "The length of the stored ciphertext depends only on the length of the plaintext. The object, access and token keys have separate roles: nothing sealed in one role opens in another or without that role's key.",
     ["inputs", "configurations"], "all pairs of secrets of equal lengths (two-run comparison over the same randomness), all keys",
     "independence relates pairs of runs; no test compares runs and none can for all secrets", ["d1.go", "data/object.go", "data/access.go", "crypto/cryptor.go", "crypto/aes.go"],
     [("Seal", "data/object.go, data/access.go"), ("separate cryptors", "d1.go New")],
     "Ciphertexts of the ideal cipher are fresh values; the two runs must send syntactically or provably equal bytes.", TR)

prop("C07", "Tokens open to their contents until they expire and never otherwise",
     "A token created by CreateToken opens to exactly its contents, by any instance with the same token key, until one hour after its creation and not at any later moment, also after a round trip through its string form. "
     "A token changed in any part (contents, key, expiry time), assembled from parts of others, or made under another token key does not open.",
     ["inputs", "histories"], "all contents of the bounded lengths, all creation and opening times (nanoseconds), all changes of every field and of the string form",
     "tests use one token and a few fixed offsets", ["d1.go", "data/token.go"],
     [("Seal/Unseal with the expiry time as associated data", "data/token.go"), ("String/TokenFromString", "data/token.go")],
     "Time is symbolic between 1970 and 2200 with a monotone clock; ideal AES.", T)

prop("C08", "Identities come only from correct logins and unexpired genuine tokens",
     "LoginUser succeeds exactly with an existing user's identifier and current password (up to trailing zero bytes, and the hashing of passwords over one hash block, which PBKDF2 itself does not distinguish), and ChangeUserPassword exactly with the current one, after which only the returned new password works. "
     "A token yields exactly the identity of the user that logged in, with the user's own scopes and present groups with the scopes those groups were created with, until it expires or the user is deleted; no other string yields an identity. "
     "Storage that alters or exchanges user and group records cannot make one user log in as another or gain scopes or groups.",
     ["inputs", "histories", "fault_sequences"], "all password strings up to the bound, all scopes, all alterations and exchanges of records and tokens",
     "tests log in with one right and one wrong password", ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go", "crypto/password.go", "data/token.go"],
     [("LoginUser, ChangeUserPassword, GetIdentity", "id/standalone.go"), ("User.authenticate, seal/unseal bound to the identifier", "id/standalone_user.go"), ("PasswordHasher.Compare", "crypto/password.go")],
     "Passwords of up to about 45 symbolic bytes, those of other lengths compared after PBKDF2's own padding; up to 40 users; PBKDF2 and AES ideal.", T)

prop("C09", "Only members of a group can manage it, and memberships follow the calls",
     "AddUserToGroups and RemoveUserFromGroups succeed exactly when the caller's token is valid, the user exists, and the caller is a member of every named group; a new group has exactly its creator as member. "
     "After any history the memberships are exactly those the successful calls produce; a failed call changes nothing. Deleting a user removes that user only, and deleting again succeeds.",
     ["inputs", "histories"], "all histories of group creation, addition, removal and deletion by up to three users and two or three groups up to the bound, all argument strings for names that are not groups",
     "tests exercise fixed short sequences", ["id/standalone.go", "id/standalone_user.go", "id/standalone_group.go"],
     [("checking membership", "id/standalone.go AddUserToGroups, RemoveUserFromGroups"), ("addGroups/removeGroups/containsGroups", "id/standalone_user.go")],
     "Histories of up to 3 (quick) or 4 (thorough) operations; up to 34 groups in one user.", T)

prop("C10", "A search returns exactly the identifiers that were added and not deleted",
     "After any history of index operations, Search for a keyword returns exactly the identifiers added under that keyword and not deleted since, as often as they were added, by whichever instance over the storage, and nothing for keywords never used; keywords and identifiers are compared byte by byte. "
     "Deleting a pair removes all of its entries and no other, wherever they are in the keyword's chain, and deleting what is absent does not affect what is there.",
     ["inputs", "histories"], "all histories of Add, Search and Delete over two keywords and two identifiers up to the bound, all chains with any subset deleted in any order, all keyword and identifier strings up to the bound",
     "tests walk a few fixed sequences; chain corner cases (first, middle, last node, duplicates) combine", ["index/index.go", "data/node.go", "crypto/tagger.go"],
     [("Add, Search, Delete", "index/index.go"), ("labels from keyword and counter", "index/index.go, crypto/tagger.go")],
     "Chains up to 5 (quick) / 6 (thorough) entries built through the API, and chains of 130 and 260 (thorough 1030) entries in the stored format with one operation on each; KMAC ideal (labels collide only for equal inputs). Identifiers with invalid UTF-8 are a known finding.", T)

prop("C11", "The index answers only authenticated callers with the index scope",
     "Add, Search and Delete succeed only for a caller that the identity provider identifies and whose own scopes contain the index scope; scopes of its groups do not count. Otherwise they return no result, report the documented error and make no storage request at all. The decision is made anew for every call.",
     ["inputs", "histories"], "all 64-bit scopes of the caller and its groups, all operations, all sequences of scope changes up to the bound",
     "tests use one caller with and one without the scope", ["index/index.go", "id/id.go", "id/scope.go"],
     [("verifyAccess", "index/index.go")], "Symbolic scopes, up to two groups.", T)

prop("C12", "The index reveals nothing to storage and survives whatever storage does",
     "What the index sends to the storage does not depend on the keywords and identifiers, other than through lengths and, for requests, which requests concern the same entry; stored entries of one keyword cannot be told from entries of several. "
     "Whatever the storage changes, exchanges, replays or invents, a search ends, and returns an error or only identifiers that were added under the keyword searched for.",
     ["inputs", "histories", "fault_sequences"], "all pairs of keywords and identifiers of equal lengths, all alterations and exchanges of entries",
     "independence relates pairs of runs; tests do not attack the index", ["index/index.go", "data/node.go", "crypto/tagger.go", "crypto/cryptor.go"],
     [("labels by KMAC, nodes by AES-GCM bound to keyword and counter", "index/index.go, data/node.go")],
     "Ideal AES-GCM and KMAC; chains up to 3 entries.", TR)

prop("C13", "Key wrapping is AES-KWP and accepts exactly what the standard accepts",
     "Wrapping a key of any permitted size under any key gives the ciphertext of AES Key Wrap with Padding (RFC 5649 / SP 800-38F), and unwrapping returns the key. Unwrapping accepts exactly the ciphertexts the standard accepts, for any bytes of any length, and sizes outside the documented range are refused without a panic. "
     "A changed wrapped key or another wrapping key is refused.",
     ["inputs"], "all keys, wrapping keys and wrapped keys of the bounded lengths, AES being an arbitrary permutation",
     "tests have a few vectors and random round trips", ["crypto/kwp.go"], [("Wrap, Unwrap, integrity value and padding check", "crypto/kwp.go")],
     "Compared with an independent transcription of RFC 5649 over uninterpreted AES; lengths 16-48 (quick) fully, and lengths up to 8192 for wrapping.", T)

prop("C14", "AES-256-GCM encryption round-trips and rejects everything else",
     "Encrypting any plaintext with any associated data gives ciphertext, tag and a fresh nonce, 28 bytes longer than the plaintext, and decrypting returns the plaintext. Any change of ciphertext, associated data, wrapped key or key makes decryption fail without output, and inputs of any length are handled without a panic. "
     "The cryptor on top returns the value it was given, for the data it was given, and leaves the destination alone on failure.",
     ["inputs"], "all plaintexts, associated data and keys of the bounded lengths; all changes",
     "tests flip one bit of one ciphertext", ["crypto/aes.go", "crypto/cryptor.go"], [("Encrypt/Decrypt", "crypto/aes.go, crypto/cryptor.go")],
     "GCM itself is ideal; lengths up to 33.", T)

prop("C15", "MAC, tags and derived keys are KMAC and separate every input",
     "The MAC is KMAC128/KMAC256 of SP 800-185 for any key, message, customization string and output size, however the message is split into writes; Sum does not disturb the state and Reset starts over. "
     "Derived keys and tags are KMAC256 of their inputs, so two of them agree exactly when keys, labels, contexts or data agree. Keys and sizes that are too small are refused.",
     ["inputs"], "all keys, messages, customization strings of the bounded lengths and all splits",
     "tests compare with the standard's samples only", ["crypto/kmac.go", "crypto/kdf.go", "crypto/tagger.go"],
     [("newKMAC, bytepad, leftEncode, rightEncode", "crypto/kmac.go"), ("KMACKDF", "crypto/kdf.go"), ("Tag", "crypto/tagger.go")],
     "cSHAKE is an ideal function; compared with an independent transcription of SP 800-185.", T)

prop("C16", "A password matches exactly the hash made for it",
     "A generated password is 32 random bytes in unpadded base64url and comes with an 8-byte random salt followed by PBKDF2-SHA3-256 (10000 iterations) of it. Comparing succeeds exactly for that password (up to trailing zero bytes, and the hashing of passwords over one hash block, which PBKDF2 itself does not distinguish) and that hash; other passwords, other hashes, and stored hashes of any length and content fail without a panic.",
     ["inputs"], "all passwords up to the bound, all stored hashes up to 60 bytes",
     "tests try one right and one wrong password", ["crypto/password.go"], [("GeneratePassword, Compare", "crypto/password.go")],
     "PBKDF2 ideal; trailing zero bytes and over-long passwords compared as PBKDF2 does.", T)

prop("C17", "Storage providers are faithful maps from identifier and type to bytes",
     "The in-memory and Bolt providers store bytes under pairs of identifier and type: Put creates or reports that it exists, Get returns exactly the last stored bytes or reports that it is missing, Update replaces or reports that it is missing, Delete removes and never reports a missing entry. "
     "Different pairs never share an entry, a failed operation changes nothing, and data stored or returned is not affected by later changes to the caller's or the provider's memory. A Bolt database that is closed and opened again holds what it held; one that cannot be opened, set up or used, or is in use already, is reported as such, never as a missing or existing entry, and its file is for its owner only. A proxy forwards each operation unchanged.",
     ["inputs", "histories"], "all identifiers and contents of the bounded lengths, all histories over three keys up to the bound, both providers",
     "tests use fixed identifiers and contents", ["io/mem.go", "io/bolt.go", "io/io.go", "io/proxy.go"],
     [("key from identifier and type", "io/mem.go, io/bolt.go"), ("DataType.Bytes", "io/io.go")],
     "Bolt's transactions are modelled as a map with all-or-nothing updates; identifiers within Bolt's size limits. A failing database is one that is closed or cannot be opened.", T)

prop("C18", "Concurrent use never mixes users, objects, entries or keys",
     "Concurrent operations on one entry of the in-memory provider behave as if executed one after the other, and operations on different entries, objects, keywords, users or tokens do not affect each other. "
     "Concurrent additions to one keyword that report success are all found, the others leave nothing behind. Whatever the order of two operations on one object, a decryption returns only a version that was stored, and no one gains access who was not given it. No two calls, of any operations, access shared memory of the library without synchronization.",
     ["schedules", "inputs"], "all interleavings of two or three concurrent calls at every shared-memory and storage step, up to the bound on preemptions",
     "tests run few schedules at best; none is chosen", ["io/mem.go", "index/index.go", "d1.go", "id/standalone.go"],
     [("lock", "io/mem.go"), ("Put with ErrAlreadyExists as the commit point of Add", "index/index.go")],
     "Up to 2 (quick) or 3 (thorough) preemptions, taken at accesses to memory that the threads share; data races for any two of 22 operations. Lost updates on one object and concurrent index deletions are known findings.", TS)

prop("C19", "A failing dependency fails the request and never grants access or loses others",
     "Whichever storage, key, identity or randomness call of a request fails, before or after taking effect, the request reports an error (only deleting what is absent succeeds). "
     "Afterwards everything else is unaffected, nobody has gained access, scopes, memberships or logins, an object reads as a version from before or of the request or not at all, and repeating the request completes it. Encrypt never overwrites what is stored, and missing entries are reported by the documented errors.",
     ["fault_sequences", "crash_points", "histories"], "all single failures at each dependency call of each operation, with and without effect, for all error values including wrapped sentinels",
     "tests inject a few failures at fixed calls", ["d1.go", "utility.go", "index/index.go", "id/standalone.go", "crypto/random.go"],
     [("order of the storage calls", "d1.go"), ("error mapping", "utility.go, index/index.go, id/standalone.go"), ("deleting the object before its access record", "d1.go Delete")],
     "One fault per request (position, kind and effect symbolic), in the storage, the identity provider, the keys or the making of identifiers; reads of the operating system's randomness do not fail (Go 1.24 and later). Interrupted Update and index Delete are known findings.", TF)

prop("C20", "Every encryption uses its own fresh random key and nonce",
     "Every object, access record, token, user, group and index node that is written is encrypted under a data key and a nonce that come entirely from the random source and are used for nothing else, through any history of requests. Identifiers, passwords and salts are likewise unused randomness; no random byte is used twice.",
     ["histories", "inputs"], "all histories of up to three requests, all values of the randomness",
     "reuse shows only across calls and for particular values; tests look at single outputs", ["crypto/cryptor.go", "crypto/aes.go", "crypto/random.go", "crypto/password.go", "d1.go"],
     [("GetBytes", "crypto/random.go"), ("fresh data key per Encrypt", "crypto/cryptor.go")],
     "Every random byte is its own symbol; the check traces which symbols each key and nonce consist of. Quality of the system's entropy is out of scope.", T)

prop("C21", "Keys are checked for size and keep to their roles",
     "Every component refuses to start with any of its keys missing or not of 32 bytes, works with any keys of 32 bytes, and does not need keys it does not use. With another user, group, token or index key than the data was written under, users, groups, tokens and index entries of the old key are not found or accepted, and nothing stored under the old key is disturbed.",
     ["inputs", "configurations"], "all keys of 32 bytes and all other lengths up to the bound, for each key of each component",
     "tests try one wrong length for some keys", ["d1.go", "index/index.go", "id/standalone.go", "crypto/cryptor.go", "crypto/tagger.go", "key/static.go"],
     [("length checks", "crypto/cryptor.go, crypto/tagger.go, index/index.go"), ("separate cryptors", "d1.go, id/standalone.go")],
     "Key lengths 0-40 and some larger; keys of 32 bytes are symbolic.", T)

prop("C22", "The caller's memory is left alone and not depended upon",
     "No operation changes the objects, byte slices, group lists, keys or tokens passed to it, nor the memory behind them, apart from the low-level cipher's documented exception. What was stored, created or returned does not change when the caller afterwards reuses or clears that memory, and changing a result does not affect what is stored. Opening a token or sealed record can be repeated.",
     ["inputs", "histories"], "all contents, with spare capacity behind slices, for each operation",
     "tests pass exactly sized fresh slices and do not look at them afterwards", ["d1.go", "data/object.go", "crypto/cryptor.go", "index/index.go", "crypto/tagger.go", "io/mem.go", "io/bolt.go"],
     [("copies", "crypto/cryptor.go Decrypt, io/mem.go, io/bolt.go, data/access.go")],
     "Contents of bounded length, spare capacities 0, 8, 16, 64.", T)

prop("C23", "Malformed input is answered with an error, never a panic or a hang",
     "Whatever strings are given as tokens, whatever bytes the storage answers with, and whatever identifiers, names, passwords, keywords and missing or empty lists are given as arguments, every operation of the library and its primitives returns: with an error where the input does not allow a result, without panicking, without looping, and leaving what is stored as it was.",
     ["inputs", "fault_sequences"], "all byte strings of the bounded lengths as tokens and stored records, malformed documents of each record kind, all arguments of the bounded sizes",
     "tests give a few malformed tokens; a panic needs one particular length or document", ["data/token.go", "data/object.go", "data/access.go", "id/standalone.go", "index/index.go", "crypto/cryptor.go", "crypto/aes.go", "crypto/kwp.go", "crypto/password.go"],
     [("TokenFromString", "data/token.go"), ("unmarshalling of stored records", "utility.go, index/index.go, id/standalone.go"), ("length checks", "crypto/aes.go, crypto/kwp.go, crypto/password.go")],
     "Tokens and records of up to about 40 arbitrary bytes, plus documents with fields missing, repeated, null, of other types or sizes; a loop that exceeds the step limit natively is reported as a hang.", T)

prop("C24", "Scopes, identities, access lists and data types are exact sets and values",
     "A union of scopes holds exactly the permissions of its parts, containing means holding every permission asked for, and the named scopes are distinct single permissions. An identity's identifiers are its own and those of its groups, each with its own scopes. "
     "The groups of an access record are exactly those added and not removed, also through sealing and opening, and its wrapped key stays. Distinct data types have distinct encodings of one size. A static key provider returns the keys it was given; new users and groups have the union of the scopes they were made with.",
     ["inputs"], "all 64-bit scopes and lists of them, all identities of the bounded size, all sequences of group calls up to the bound, all pairs of data types",
     "tests check a few combinations of named scopes and groups", ["id/scope.go", "id/id.go", "data/access.go", "io/io.go", "key/static.go", "id/standalone_user.go", "id/standalone_group.go"],
     [("Contains, ScopeUnion", "id/scope.go"), ("GetIDs, GetIDScope", "id/id.go"), ("AddGroups, RemoveGroups, ContainsGroups", "data/access.go"), ("DataType.Bytes", "io/io.go")],
     "Scopes are symbolic 64-bit values, names symbolic strings; up to three parts, groups or calls.", T)

prop("C25", "Logs reveal no secrets and never mix calls",
     "What the library logs does not depend on keys, plaintexts, associated data, token contents, keywords, index identifiers, passwords or access tokens. A call leaves the logger and its context of the caller as they were. Calls running at the same time under one logger write the lines they write alone: no line carries the method, user or object of another call.",
     ["inputs", "schedules"], "all values of the secrets in two related runs; all interleavings of two calls at shared memory up to the bound on preemptions",
     "tests do not look at logs, and the mixing needs a particular schedule", ["log/log.go", "d1.go", "index/index.go", "id/standalone.go"],
     [("CopyCtxLogger, WithMethod, WithUserID, WithObjectID", "log/log.go"), ("logging in each operation", "d1.go, index/index.go, id/standalone.go")],
     "The real zerolog is executed; two runs compared after blanking the random identifiers; up to 2 preemptions.", TR)

prop("C26", "Providers are asked only on behalf of the request, and only for its records",
     "Every call that an operation makes of the storage, the identity provider or the key provider carries the context of that very request (its values, deadline and cancellation), the identity provider gets exactly the token given to that request, and the storage is asked only for records of the object, user, groups or keyword of that request, whatever requests came before.",
     ["inputs", "histories"], "all operations with all orders of two requests, by callers with different contexts and tokens",
     "tests use one background context and look at results, not at what the providers are asked", ["d1.go", "utility.go", "index/index.go", "id/standalone.go"],
     [("context passed on", "d1.go, utility.go, index/index.go, id/standalone.go"), ("records addressed", "utility.go")],
     "Two requests in a row out of all operations; contexts distinguished by value and deadline.", T)

prop("C27", "Stored data and tokens keep their format and stay readable",
     "Objects, access lists, index entries, users, groups and tokens that were stored in the format of the pinned version are read with exactly their contents, and everything written is in that format: JSON records whose contents are AES-256-GCM under a fresh key wrapped with AES-KWP under the key of their role, authenticated with the JSON of what they belong to, under labels derived from the keyword and a counter.",
     ["inputs", "histories"], "all contents, keys, identifiers and names of the bounded sizes, in both directions (reading what a reference encoder wrote and decoding what the code wrote)",
     "round-trip tests pass when writer and reader change together, which makes existing data unreadable", ["data/object.go", "data/access.go", "data/token.go", "crypto/cryptor.go", "data/node.go", "index/index.go", "id/standalone_user.go", "id/standalone_group.go"],
     [("seal/unseal", "data/, id/, index/"), ("EncodeAndEncrypt/DecodeAndDecrypt", "crypto/cryptor.go"), ("labels", "index/index.go")],
     "The reference encoder is in the harness, independent of the code; lengths up to 17 bytes, up to 3 groups or entries.", T)

exec(open(os.path.join(root, "tools", "more.py")).read()) if os.path.exists(os.path.join(root, "tools", "more.py")) else None

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": [],
       "notes": "All checks execute the current code of /repo symbolically (engine/) with harnesses in harness/h; no hooks in /repo. Known findings: known-findings.json."}
for id, note, tech, na in M:
    if na:
        man["not_applicable"].append({"property": id, "reason": na})
    else:
        man["checks"].append({"property": id, "quick_cmd": f"bash check.sh {id} quick", "thorough_cmd": f"bash check.sh {id} thorough",
                              "evidence_file": f"evidence/{id}.json", "technique": tech, "level": "model_checking", "level_note": note})
json.dump(man, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
