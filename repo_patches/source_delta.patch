From 7b53ce513a4b7fa6ea936d66e91422b152c683a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 01/12] fix: a user's own identifier is not a group the user
 can manage

---
 id/standalone.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/id/standalone.go b/id/standalone.go
index 53ac7d2..9380799 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -219,9 +219,8 @@ func (s *Standalone) AddUserToGroups(ctx context.Context, token, uid string, gid
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
@@ -255,9 +254,8 @@ func (s *Standalone) RemoveUserFromGroups(ctx context.Context, token, uid string
 
 	// Check if caller is a member of all groups
 	log.Ctx(ctx).Debug().Msgf("checking membership of %d groups", len(gids))
-	callerGroups := identity.GetIDs()
 	for _, gid := range gids {
-		if _, ok := callerGroups[gid]; !ok {
+		if _, ok := identity.Groups[gid]; !ok {
 			return ErrNotAuthorized
 		}
 	}
-- 
2.43.0


From 5de98e26dc19ef513ef48e8653e683539a234f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:53 +0000
Subject: [PATCH 02/12] fix: bind stored users and groups to the requested
 identifier

---
 id/standalone.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/id/standalone.go b/id/standalone.go
index 9380799..0a6a09a 100644
--- a/id/standalone.go
+++ b/id/standalone.go
@@ -371,6 +371,7 @@ func (s *Standalone) getUser(ctx context.Context, uid string) (*User, error) {
 	if err = json.Unmarshal(userBytes, user); err != nil {
 		return nil, err
 	}
+	user.UID = uid
 
 	log.Ctx(ctx).Debug().Msg("unsealing user")
 	plainUser, err := user.unseal(s.userCryptor)
@@ -417,6 +418,7 @@ func (s *Standalone) getGroup(ctx context.Context, gid string) (*Group, error) {
 	if err := json.Unmarshal(groupBytes, group); err != nil {
 		return nil, err
 	}
+	group.GID = gid
 
 	log.Ctx(ctx).Debug().Msg("unsealing group")
 	plainGroup, err := group.unseal(s.groupCryptor)
-- 
2.43.0


From c5f913cacfc3b6b76992a61299762590f1c3ae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 03/12] fix: comparing a password with a malformed hash fails
 instead of panicking

---
 crypto/password.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/password.go b/crypto/password.go
index ad00fa0..ebd67d6 100644
--- a/crypto/password.go
+++ b/crypto/password.go
@@ -56,6 +56,9 @@ func (p *PasswordHasher) GeneratePassword() (string, []byte, error) {
 }
 
 func (p *PasswordHasher) Compare(password string, saltAndHash []byte) bool {
+	if len(saltAndHash) != saltLength+hashLength {
+		return false
+	}
 	salt := saltAndHash[:saltLength]
 	hash := saltAndHash[saltLength:]
 	return subtle.ConstantTimeCompare(passwordHash([]byte(password), salt), hash) == 1
-- 
2.43.0


From d683e9e8ae9dc796a875d0d336cf67695913fdc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 04/12] fix: KMAC pads the key to a multiple of the rate, not
 beyond it

---
 crypto/kmac.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/kmac.go b/crypto/kmac.go
index 18f7988..b7531c6 100644
--- a/crypto/kmac.go
+++ b/crypto/kmac.go
@@ -117,8 +117,10 @@ func bytepad(input []byte, w int) []byte {
 	buf := make([]byte, 0, 9+len(input)+w)
 	buf = append(buf, leftEncode(uint64(w))...)
 	buf = append(buf, input...)
-	padlen := w - (len(buf) % w)
-	return append(buf, make([]byte, padlen)...)
+	if rem := len(buf) % w; rem != 0 {
+		buf = append(buf, make([]byte, w-rem)...)
+	}
+	return buf
 }
 
 func leftEncode(value uint64) []byte {
-- 
2.43.0


From 858d70a2f421c3a559e9fdb3022482f23e09bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 05/12] fix: Bolt does not write behind the caller's identifier

---
 io/bolt.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/io/bolt.go b/io/bolt.go
index 929aef8..b25c97a 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -52,8 +52,13 @@ func NewBolt(path string) (Bolt, error) {
 	return Bolt{store, objectBucket}, nil
 }
 
+// boltKey computes the key of some data. It does not use the memory behind `id`.
+func boltKey(id []byte, dataType DataType) []byte {
+	return append(append([]byte{}, id...), dataType.Bytes()...)
+}
+
 func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) != nil {
@@ -64,7 +69,7 @@ func (b *Bolt) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 }
 
 func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, error) {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
@@ -81,7 +86,7 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 }
 
 func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		if b.Get(key) == nil {
@@ -92,7 +97,7 @@ func (b *Bolt) Update(_ context.Context, id []byte, dataType DataType, data []by
 }
 
 func (b *Bolt) Delete(_ context.Context, id []byte, dataType DataType) error {
-	key := append(id, dataType.Bytes()...)
+	key := boltKey(id, dataType)
 	return b.store.Update(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
 		return b.Delete(key)
-- 
2.43.0


From 18f0e5ebbc1f07101f9e5a3aac8e339dc1963e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 06/12] fix: Bolt finds empty data

---
 io/bolt.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/io/bolt.go b/io/bolt.go
index b25c97a..a632484 100644
--- a/io/bolt.go
+++ b/io/bolt.go
@@ -73,7 +73,9 @@ func (b *Bolt) Get(_ context.Context, id []byte, dataType DataType) ([]byte, err
 	var out []byte
 	err := b.store.View(func(tx *bolt.Tx) error {
 		b := tx.Bucket(b.objectBucket)
-		out = append(out, b.Get(key)...)
+		if data := b.Get(key); data != nil {
+			out = append([]byte{}, data...)
+		}
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From a1f6bcc9b9f77cd1d6aac80d7e86aa5b3fadee7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:38 +0000
Subject: [PATCH 07/12] fix: Mem keeps its own copy of the data

---
 io/mem.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/io/mem.go b/io/mem.go
index 18a2bd1..19b4850 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -41,7 +41,7 @@ func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte)
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte{}, data...))
 	return nil
 }
 
@@ -52,7 +52,7 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 		return nil, ErrNotFound
 	}
 	data := out.([]byte)
-	return data, nil
+	return append([]byte{}, data...), nil
 }
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
@@ -60,7 +60,7 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
-	m.data.Store(key, data)
+	m.data.Store(key, append([]byte{}, data...))
 	return nil
 }
 
-- 
2.43.0


From 75084f1ad15fd3f4dd19d2b12311e31ec2448ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 08/12] fix: concurrent changes of one key of Mem take effect
 one after the other

---
 io/mem.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/io/mem.go b/io/mem.go
index 19b4850..c49c200 100644
--- a/io/mem.go
+++ b/io/mem.go
@@ -24,11 +24,12 @@ import (
 // Mem implements an in-memory version of an IO Provider.
 type Mem struct {
 	data sync.Map
+	mu   sync.Mutex // serializes changes of the data
 }
 
 // NewMem creates a new in-memory IO Provider.
 func NewMem() Mem {
-	return Mem{sync.Map{}}
+	return Mem{}
 }
 
 func newKey(id []byte, dataType DataType) string {
@@ -38,6 +39,10 @@ func newKey(id []byte, dataType DataType) string {
 
 func (m *Mem) Put(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	if _, ok := m.data.Load(key); ok {
 		return ErrAlreadyExists
 	}
@@ -57,6 +62,10 @@ func (m *Mem) Get(_ context.Context, id []byte, dataType DataType) ([]byte, erro
 
 func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byte) error {
 	key := newKey(id, dataType)
+
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	if _, ok := m.data.Load(key); !ok {
 		return ErrNotFound
 	}
@@ -66,6 +75,10 @@ func (m *Mem) Update(_ context.Context, id []byte, dataType DataType, data []byt
 
 func (m *Mem) Delete(_ context.Context, id []byte, dataType DataType) error {
 	key := newKey(id, dataType)
+
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	m.data.Delete(key)
 	return nil
 }
-- 
2.43.0


From 99b413676a956977cbf049796867c579b3bd53cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:38 +0000
Subject: [PATCH 09/12] fix: encrypting does not write behind the caller's list
 of groups

---
 d1.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/d1.go b/d1.go
index e05c4cd..2baf70e 100644
--- a/d1.go
+++ b/d1.go
@@ -139,7 +139,8 @@ func (d *D1) Encrypt(ctx context.Context, token string, object *data.Object, gro
 
 	log.Ctx(ctx).Debug().Strs("groups", groups).Msg("creating access")
 	access := data.NewAccess(wrappedDEK)
-	access.AddGroups(append(groups, identity.ID)...)
+	access.AddGroups(groups...)
+	access.AddGroups(identity.ID)
 
 	log.Ctx(ctx).Debug().Msg("sealing access")
 	sealedAccess, err := access.Seal(oid, d.accessCryptor)
-- 
2.43.0


From 46dd1d07330e42f7489b1732ba3ca8480b95ee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:52 +0000
Subject: [PATCH 10/12] fix: the index keeps its own copy of its key

---
 index/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index/index.go b/index/index.go
index 098572f..6873304 100644
--- a/index/index.go
+++ b/index/index.go
@@ -72,7 +72,7 @@ func NewSecureIndex(ctx context.Context, keyProvider key.Provider, ioProvider io
 	return SecureIndex{
 		ioProvider: ioProvider,
 		idProvider: idProvider,
-		indexKey:   keys.IEK,
+		indexKey:   append([]byte{}, keys.IEK...),
 	}, nil
 }
 
-- 
2.43.0


From 02cda763a7a4a71f2ff33ce7582b033ac6a217b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:52 +0000
Subject: [PATCH 11/12] fix: the tagger keeps its own copy of its key

---
 crypto/tagger.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/tagger.go b/crypto/tagger.go
index 3d4b07f..308375d 100644
--- a/crypto/tagger.go
+++ b/crypto/tagger.go
@@ -33,7 +33,7 @@ func NewKMAC256Tagger(key []byte) (Tagger, error) {
 		return Tagger{}, ErrInvalidKeyLength
 	}
 
-	return Tagger{Key: key}, nil
+	return Tagger{Key: append([]byte{}, key...)}, nil
 }
 
 func (t *Tagger) Tag(data interface{}) ([]byte, error) {
-- 
2.43.0


From d161aed5f525ffdc739a652e6a17c68f602c2028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:24 +0000
Subject: [PATCH 12/12] fix: concurrent calls under one logger no longer share
 the memory of its fields

---
 log/log.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/log/log.go b/log/log.go
index 3f3f713..c1494d4 100644
--- a/log/log.go
+++ b/log/log.go
@@ -24,7 +24,8 @@ import (
 // CopyCtxLogger creates a new context with a copy of any logger found in the context. This is
 // useful when we don't want to pollute the caller's log context.
 func CopyCtxLogger(ctx context.Context) context.Context {
-	l := *zerolog.Ctx(ctx)
+	// With copies the context's fields, whose memory a plain copy of the logger would share.
+	l := zerolog.Ctx(ctx).With().Logger()
 	return l.WithContext(ctx)
 }
 
-- 
2.43.0

