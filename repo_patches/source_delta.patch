From 91c683d25b1b61854d3d234bf454cdd634216f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:46 +0000
Subject: [PATCH 01/53] fix: keep the pending messages of each sender apart
 when taking messages from the cache

---
 core/cache/message_cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/cache/message_cache.go b/core/cache/message_cache.go
index 490c221..7499e37 100644
--- a/core/cache/message_cache.go
+++ b/core/cache/message_cache.go
@@ -60,13 +60,14 @@ func (c *MessageCache) getAllMessages(workId string, update bool, filter map[com
 	defer c.cacheLock.Unlock()
 
 	result := make([]*commonTypes.TssMessage, 0)
-	newList := make([]*commonTypes.TssMessage, 0)
 
 	for _, value := range c.cache {
 		if value == nil {
 			continue
 		}
 
+		// Each sender keeps its own list of remaining messages.
+		newList := make([]*commonTypes.TssMessage, 0)
 		for _, msg := range value.msgs {
 			if msg.WorkId == workId && (filter == nil || filter[msg.Type]) {
 				result = append(result, msg)
-- 
2.43.0


From 84aeb6de606f66717fd3ec7b03813ead47c4584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:52 +0000
Subject: [PATCH 02/53] fix: evicting an old item from the circular queue must
 not drop a newer item with the same key

---
 tools/circular_queue.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/circular_queue.go b/tools/circular_queue.go
index 006be56..262e392 100644
--- a/tools/circular_queue.go
+++ b/tools/circular_queue.go
@@ -44,7 +44,10 @@ func (q *defaultCircularQueue) Add(key string, T any) {
 
 	// Remove old item from the map. The item in the queue will be overwritten.
 	if q.tail-q.head >= q.size {
-		delete(q.m, q.queue[q.head%q.size].key)
+		// The same key could have been added again later. In that case the map points to the newer item.
+		if oldest := q.queue[q.head%q.size]; q.m[oldest.key] == oldest {
+			delete(q.m, oldest.key)
+		}
 		q.head++
 	}
 
-- 
2.43.0


From c08da20b99bbac9c0091f8773e109a9bf5dfe5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:58 +0000
Subject: [PATCH 03/53] fix: inserting a request into the middle of the queue
 must not overwrite the requests behind it

---
 core/request_queue.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/request_queue.go b/core/request_queue.go
index 0df687d..8b18434 100644
--- a/core/request_queue.go
+++ b/core/request_queue.go
@@ -51,11 +51,11 @@ func (q *requestQueue) AddWork(work *types.WorkRequest) bool {
 		q.queue = append([]*types.WorkRequest{work}, q.queue...)
 	} else {
 		// Insert into the middle of the queue
-		first := q.queue[:position+1]
-		second := q.queue[position+1:]
-
-		q.queue = append(first, work)
-		q.queue = append(q.queue, second...)
+		queue := make([]*types.WorkRequest, 0, len(q.queue)+1)
+		queue = append(queue, q.queue[:position+1]...)
+		queue = append(queue, work)
+		queue = append(queue, q.queue[position+1:]...)
+		q.queue = queue
 	}
 
 	return true
-- 
2.43.0


From 6d367f5e78628b06d508671fc11b22706c89747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 04/53] fix: return an error instead of crashing when encrypted
 data is shorter than a nonce

---
 store/store.go  | 5 +++++
 utils/crypto.go | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/store/store.go b/store/store.go
index 4a97b4a..471e43e 100644
--- a/store/store.go
+++ b/store/store.go
@@ -4,6 +4,7 @@ import (
 	"crypto/aes"
 	"crypto/cipher"
 	"crypto/rand"
+	"fmt"
 
 	"github.com/syndtr/goleveldb/leveldb"
 	"github.com/syndtr/goleveldb/leveldb/iterator"
@@ -76,6 +77,10 @@ func (s *DefaultStore) GetEncrypted(key []byte) (value []byte, err error) {
 		return nil, err
 	}
 
+	if len(encryptedValue) < gcm.NonceSize() {
+		return nil, fmt.Errorf("encrypted value is too short, length = %d", len(encryptedValue))
+	}
+
 	nonce, ciphertext := encryptedValue[:gcm.NonceSize()], encryptedValue[gcm.NonceSize():]
 	data, err := gcm.Open(nil, nonce, ciphertext, nil)
 
diff --git a/utils/crypto.go b/utils/crypto.go
index 656fdc5..4732174 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -26,6 +26,10 @@ func AESDecrypt(encrypted []byte, key []byte) ([]byte, error) {
 	}
 
 	nonceSize := gcm.NonceSize()
+	if len(encrypted) < nonceSize {
+		return nil, fmt.Errorf("encrypted data is too short, length = %d", len(encrypted))
+	}
+
 	nonce, encrypted := encrypted[:nonceSize], encrypted[nonceSize:]
 	decrypted, err := gcm.Open(nil, nonce, encrypted, nil)
 
-- 
2.43.0


From 1c1c352b978e3538b769950b24ddf2c32c37c01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:15 +0000
Subject: [PATCH 05/53] fix: report an unsupported public key type instead of
 dereferencing a nil key

---
 utils/crypto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/crypto.go b/utils/crypto.go
index 4732174..d985dad 100644
--- a/utils/crypto.go
+++ b/utils/crypto.go
@@ -80,7 +80,7 @@ func GetCosmosPubKey(keyType string, keyBytes []byte) (ctypes.PubKey, error) {
 		pubKey = &secp256k1.PubKey{Key: keyBytes}
 
 	default:
-		err := fmt.Errorf("Unsupported pub key type %s", pubKey.Type())
+		err := fmt.Errorf("Unsupported pub key type %s", keyType)
 		log.Error(err)
 		return nil, err
 	}
-- 
2.43.0


From a86aa1c73507523d109eeb84e572f5e828d4a0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:25 +0000
Subject: [PATCH 06/53] fix: reading a message must not consume bytes of the
 messages behind it in the stream

---
 p2p/helper.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/p2p/helper.go b/p2p/helper.go
index 0849b91..82ecd69 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -18,9 +18,9 @@ const (
 )
 
 func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
-	streamReader := bufio.NewReader(stream)
+	// Read directly from the stream. A buffered reader could swallow bytes of the next message.
 	lengthBytes := make([]byte, HeaderLength)
-	n, err := io.ReadFull(streamReader, lengthBytes)
+	n, err := io.ReadFull(stream, lengthBytes)
 	if n != HeaderLength || err != nil {
 		return nil, fmt.Errorf("error in read the message head %w", err)
 	}
@@ -29,7 +29,7 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 		return nil, fmt.Errorf("payload length:%d exceed max payload length:%d", length, MaxPayload)
 	}
 	dataBuf := make([]byte, length)
-	n, err = io.ReadFull(streamReader, dataBuf)
+	n, err = io.ReadFull(stream, dataBuf)
 	if uint32(n) != length || err != nil {
 		return nil, fmt.Errorf("short read err(%w), we would like to read: %d, however we only read: %d", err, length, n)
 	}
-- 
2.43.0


From 4e38a6692ce392f1abf45ece2b465abc20a4b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 07/53] fix: refuse to write a message that is larger than what
 the receiver accepts

---
 p2p/helper.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/p2p/helper.go b/p2p/helper.go
index 82ecd69..ec19f23 100644
--- a/p2p/helper.go
+++ b/p2p/helper.go
@@ -37,6 +37,10 @@ func ReadStreamWithBuffer(stream network.Stream) ([]byte, error) {
 }
 
 func WriteStreamWithBuffer(msg []byte, stream network.Stream) error {
+	if len(msg) > MaxPayload {
+		return fmt.Errorf("payload length:%d exceed max payload length:%d", len(msg), MaxPayload)
+	}
+
 	length := uint32(len(msg))
 	lengthBytes := make([]byte, HeaderLength)
 	binary.LittleEndian.PutUint32(lengthBytes, length)
-- 
2.43.0


From c98a069d0f280882d7041e66d7e853a83de87136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:03 +0000
Subject: [PATCH 08/53] fix: leave unusable public keys out of the node list
 instead of crashing

---
 core/node.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/node.go b/core/node.go
index bad9ea0..142a9e1 100644
--- a/core/node.go
+++ b/core/node.go
@@ -18,6 +18,11 @@ type Node struct {
 }
 
 func NewNode(pubKey ctypes.PubKey) *Node {
+	if pubKey == nil {
+		log.Error("Pub key is nil")
+		return nil
+	}
+
 	var p2pPubKey crypto.PubKey
 	var err error
 	switch pubKey.Type() {
@@ -46,14 +51,21 @@ func NewNode(pubKey ctypes.PubKey) *Node {
 	}
 }
 
+// NewNodes creates a sorted list of nodes from a list of public keys. Keys that cannot be used are
+// left out of the result.
 func NewNodes(tPubKeys []ctypes.PubKey) []*Node {
-	nodes := make([]*Node, len(tPubKeys))
-	pids := make([]*tss.PartyID, len(tPubKeys))
+	nodes := make([]*Node, 0, len(tPubKeys))
+	pids := make([]*tss.PartyID, 0, len(tPubKeys))
 
-	for i, pubKey := range tPubKeys {
+	for _, pubKey := range tPubKeys {
 		node := NewNode(pubKey)
-		nodes[i] = node
-		pids[i] = node.PartyId
+		if node == nil {
+			// This public key cannot be used as the identity of a node.
+			continue
+		}
+
+		nodes = append(nodes, node)
+		pids = append(pids, node.PartyId)
 	}
 
 	// Sort nodes by partyId
-- 
2.43.0


From 4c8fbd7e1ba5df99220cff224c70deb7be0849c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 09/53] fix: save the given peers and load them back with their
 own key type

---
 db/database.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index d9b3156..814217c 100644
--- a/db/database.go
+++ b/db/database.go
@@ -529,10 +529,19 @@ func (d *SqlDatabase) UpdatePresignStatus(presignIds []string) error {
 }
 
 func (d *SqlDatabase) SavePeers(peers []*p2ptypes.Peer) error {
+	if len(peers) == 0 {
+		return nil
+	}
+
 	query := "INSERT INTO peers (`address`, pubkey, pubkey_type) VALUES "
 	query = query + getQueryQuestionMark(len(peers), 3)
 
-	_, err := d.db.Exec(query)
+	params := make([]interface{}, 0, len(peers)*3)
+	for _, peer := range peers {
+		params = append(params, peer.Address, peer.PubKey, peer.PubKeyType)
+	}
+
+	_, err := d.db.Exec(query, params...)
 	if err != nil {
 		return err
 	}
@@ -562,7 +571,7 @@ func (d *SqlDatabase) LoadPeers() []*p2ptypes.Peer {
 		peer := &p2ptypes.Peer{
 			Address:    nullableAddress.String,
 			PubKey:     nullablePubkey.String,
-			PubKeyType: nullablePubkey.String,
+			PubKeyType: nullableKeytype.String,
 		}
 		peers = append(peers, peer)
 	}
-- 
2.43.0


From 724541a8eb4ec1bb982042de20f0fab777bc86de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 10/53] fix: allow several presigns of the same work to be
 saved

---
 db/migrations/002_create_presign_table.up.sql | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/migrations/002_create_presign_table.up.sql b/db/migrations/002_create_presign_table.up.sql
index 2149182..1ebd037 100644
--- a/db/migrations/002_create_presign_table.up.sql
+++ b/db/migrations/002_create_presign_table.up.sql
@@ -5,5 +5,5 @@ CREATE TABLE IF NOT EXISTS presign(
   status VARCHAR(64),
   presign_output BLOB,
   created_time DATETIME DEFAULT CURRENT_TIMESTAMP,
-  PRIMARY KEY (work_id)
+  PRIMARY KEY (presign_id)
 );
-- 
2.43.0


From 599442730cd53f7b9bff4f8d87660491988458b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:05 +0000
Subject: [PATCH 11/53] fix: load presigns in the order of the requested ids
 and report missing ones

---
 db/database.go | 53 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 42 insertions(+), 11 deletions(-)

diff --git a/db/database.go b/db/database.go
index 814217c..b64a51f 100644
--- a/db/database.go
+++ b/db/database.go
@@ -445,7 +445,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	// 1. Construct the query
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT presign_output FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, presign_output FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -459,11 +459,12 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]*ecsigning.SignatureData_OneRoundData, 0)
+	// 2. Scan every rows and save it to loaded map
+	loaded := make(map[string]*ecsigning.SignatureData_OneRoundData)
 	for rows.Next() {
+		var presignId string
 		var bz []byte
-		if err := rows.Scan(&bz); err != nil {
+		if err := rows.Scan(&presignId, &bz); err != nil {
 			log.Error("Cannot unmarshall data", err)
 			return nil, err
 		}
@@ -474,7 +475,22 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 			return nil, err
 		}
 
-		results = append(results, &data)
+		loaded[presignId] = &data
+	}
+
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	// 3. Return the presigns in the same order as their ids.
+	results := make([]*ecsigning.SignatureData_OneRoundData, len(presignIds))
+	for i, presignId := range presignIds {
+		data, ok := loaded[presignId]
+		if !ok {
+			return nil, ErrNotFound
+		}
+
+		results[i] = data
 	}
 
 	return results, nil
@@ -483,7 +499,7 @@ func (d *SqlDatabase) LoadPresign(presignIds []string) ([]*ecsigning.SignatureDa
 func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	questions := getQueryQuestionMark(1, len(presignIds))
 
-	query := "SELECT status FROM presign WHERE presign_id IN " + questions + " ORDER BY created_time DESC"
+	query := "SELECT presign_id, status FROM presign WHERE presign_id IN " + questions
 
 	// Execute the query
 	interfaceArr := make([]interface{}, len(presignIds))
@@ -497,15 +513,30 @@ func (d *SqlDatabase) LoadPresignStatus(presignIds []string) ([]string, error) {
 	}
 	defer rows.Close()
 
-	// 2. Scan every rows and save it to loaded array
-	results := make([]string, 0)
+	// 2. Scan every rows and save it to loaded map
+	loaded := make(map[string]string)
 	for rows.Next() {
-		var status string
-		if err := rows.Scan(&status); err != nil {
+		var presignId, status string
+		if err := rows.Scan(&presignId, &status); err != nil {
 			log.Error("Cannot load status", err)
 			return nil, err
 		}
-		results = append(results, status)
+		loaded[presignId] = status
+	}
+
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
+
+	// 3. Return the statuses in the same order as their ids.
+	results := make([]string, len(presignIds))
+	for i, presignId := range presignIds {
+		status, ok := loaded[presignId]
+		if !ok {
+			return nil, ErrNotFound
+		}
+
+		results[i] = status
 	}
 
 	return results, nil
-- 
2.43.0


From 758e6bd368679b21b8ea4f90418b7623c893f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:15 +0000
Subject: [PATCH 12/53] fix: report a missing keygen output as not found

---
 db/database.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db/database.go b/db/database.go
index b64a51f..1b2f71d 100644
--- a/db/database.go
+++ b/db/database.go
@@ -311,7 +311,7 @@ func (d *SqlDatabase) LoadEcKeygen(keyType string) (*eckeygen.LocalPartySaveData
 		}
 	} else {
 		log.Verbose("There is no such keygen output for ", keyType)
-		return nil, nil
+		return nil, ErrNotFound
 	}
 
 	return result, nil
@@ -348,7 +348,7 @@ func (d *SqlDatabase) LoadEdKeygen(keyType string) (*edkeygen.LocalPartySaveData
 		}
 	} else {
 		log.Verbose("There is no such keygen output for ", keyType)
-		return nil, nil
+		return nil, ErrNotFound
 	}
 
 	return result, nil
-- 
2.43.0


From 74c2f747f1a8223c84e0af4c5db6ce6986463489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 13/53] fix: keep the in-memory database on a single connection
 that does not expire

---
 db/database.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/db/database.go b/db/database.go
index 1b2f71d..3d7bdc8 100644
--- a/db/database.go
+++ b/db/database.go
@@ -127,6 +127,17 @@ func (d *SqlDatabase) Connect() error {
 
 	if d.config.InMemory {
 		database, err = sql.Open("sqlite3", ":memory:")
+		if err != nil {
+			return err
+		}
+
+		// Every connection to an in-memory database has its own data. Use a single connection that
+		// never expires.
+		d.db = database
+		database.SetMaxOpenConns(1)
+
+		log.Info("In-memory db is created successfully")
+		return nil
 	} else {
 		database, err = sql.Open("mysql", fmt.Sprintf("%s:%s@tcp(%s:%d)/%s", username, password, host, d.config.Port, schema))
 		if err != nil {
-- 
2.43.0


From 1ae4dad17d9065bd6f973bf8f74233fa8694cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 14/53] fix: release the lock when another routine has taken
 the presigns

---
 core/components/available_presign_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index d34f0af..895d8d1 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -142,6 +142,7 @@ func (m *defaultAvailablePresigns) GetAvailablePresigns(batchSize int, n int, al
 				delete(m.available, selectedPidstring)
 			}
 		} else {
+			m.lock.Unlock()
 			return []string{}, []*tss.PartyID{}
 		}
 	}
-- 
2.43.0


From d1005173f3a96ce756ce1f8044729d47b0b876c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 15/53] fix: write the configuration file from the settings
 that exist instead of crashing

---
 core/config/gen-localhost/main.go |  7 +++++
 core/config/toml.go               | 51 +++++++++++++++++++++++--------
 2 files changed, 45 insertions(+), 13 deletions(-)

diff --git a/core/config/gen-localhost/main.go b/core/config/gen-localhost/main.go
index 234d383..797280a 100644
--- a/core/config/gen-localhost/main.go
+++ b/core/config/gen-localhost/main.go
@@ -7,6 +7,7 @@ import (
 	"path/filepath"
 
 	"github.com/sisu-network/dheart/core/config"
+	p2ptypes "github.com/sisu-network/dheart/p2p/types"
 )
 
 func genLocalhostConfig() {
@@ -25,6 +26,12 @@ func genLocalhostConfig() {
 		Schema:   "dheart",
 	}
 
+	cfg.Connection = p2ptypes.ConnectionsConfig{
+		Host:       "0.0.0.0",
+		Port:       28300,
+		Rendezvous: "rendezvous",
+	}
+
 	configFilePath := filepath.Join(cfg.HomeDir, "./dheart.toml")
 	config.WriteConfigFile(configFilePath, cfg)
 }
diff --git a/core/config/toml.go b/core/config/toml.go
index 755cfe0..663fcbe 100644
--- a/core/config/toml.go
+++ b/core/config/toml.go
@@ -2,7 +2,9 @@ package config
 
 import (
 	"bytes"
+	"fmt"
 	"io/ioutil"
+	"strings"
 	"text/template"
 	"time"
 )
@@ -10,41 +12,64 @@ import (
 const defaultConfigTemplate = `# This is a TOML config file.
 # For more information, see https://github.com/toml-lang/toml
 
-home-dir = "{{ .HomeDir }}"
+home-dir = {{ str .HomeDir }}
 use-on-memory = {{ .UseOnMemory }}
 shortcut-preparams = {{ .ShortcutPreparams }}
-sisu-server-url = "{{ .SisuServerUrl }}"
+sisu-server-url = {{ str .SisuServerUrl }}
 port = {{ .Port }}
 
 ###############################################################################
 ###                        Database Configuration                           ###
 ###############################################################################
 [db]
-	host = "{{ .Db.Host }}"
+	host = {{ str .Db.Host }}
 	port = {{ .Db.Port }}
-	username = "{{ .Db.Username }}"
-	password = "{{ .Db.Password }}"
-	schema = "{{ .Db.Schema }}"
-	migration-path = "{{ .Db.MigrationPath }}"
+	username = {{ str .Db.Username }}
+	password = {{ str .Db.Password }}
+	schema = {{ str .Db.Schema }}
 [connection]
-  host = "0.0.0.0"
-  port = 28300
-  rendezvous = "rendezvous"
-  peers = {{ .Connection.BootstrapPeers }}
-`
+  host = {{ str .Connection.Host }}
+  port = {{ .Connection.Port }}
+  rendezvous = {{ str .Connection.Rendezvous }}
+{{ range .Connection.Peers }}
+[[connection.peers]]
+  address = {{ str .Address }}
+  pubkey = {{ str .PubKey }}
+  pubkey_type = {{ str .PubKeyType }}
+{{ end }}`
 
 var configTemplate *template.Template
 
 func init() {
 	var err error
 
-	tmpl := template.New("dheartConfigTemplate")
+	tmpl := template.New("dheartConfigTemplate").Funcs(template.FuncMap{"str": tomlString})
 
 	if configTemplate, err = tmpl.Parse(defaultConfigTemplate); err != nil {
 		panic(err)
 	}
 }
 
+// tomlString returns a string as a quoted TOML basic string.
+func tomlString(s string) string {
+	var sb strings.Builder
+	sb.WriteByte('"')
+	for _, r := range s {
+		switch {
+		case r == '"' || r == '\\':
+			sb.WriteByte('\\')
+			sb.WriteRune(r)
+		case r < 0x20 || r == 0x7f:
+			fmt.Fprintf(&sb, "\\u%04X", r)
+		default:
+			sb.WriteRune(r)
+		}
+	}
+	sb.WriteByte('"')
+
+	return sb.String()
+}
+
 func WriteConfigFile(configFilePath string, config HeartConfig) {
 	var buffer bytes.Buffer
 
-- 
2.43.0


From 67c315e71d64e9fb07cb035ce6ac05bad54b6c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 16/53] fix: carry the given answer in an availability response

---
 types/common/tss_message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 7e9bacd..292f21d 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -47,7 +47,7 @@ func NewAvailabilityRequestMessage(from, to, workId string) *TssMessage {
 func NewAvailabilityResponseMessage(from, to, workId string, answer AvailabilityResponseMessage_ANSWER, maxJob int) *TssMessage {
 	msg := baseMessage(TssMessage_AVAILABILITY_RESPONSE, from, to, workId)
 	msg.AvailabilityResponseMessage = &AvailabilityResponseMessage{
-		Answer: AvailabilityResponseMessage_YES,
+		Answer: answer,
 		MaxJob: int32(maxJob),
 	}
 
-- 
2.43.0


From b8ada836dd828e8514f0c4595ed1ec32f7a84342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:05 +0000
Subject: [PATCH 17/53] fix: split message keys correctly whatever the work id
 is and report empty ones

---
 types/common/tss_message.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index 292f21d..f00dab2 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -115,15 +115,22 @@ func GetMessageKey(workdId, from, to, tssMsgType string) string {
 
 // ExtractMessageKey returns workId, from, to, tssMsgType
 func ExtractMessageKey(msgKey string) ([]string, error) {
-	if len(msgKey) == 0 {
-		return nil, nil
-	}
-	keys := strings.Split(msgKey, "__")
-	if len(keys) < 4 {
-		err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
-		log.Error(err)
-		return nil, err
+	keys := make([]string, 4)
+
+	// Split from the right since a work id can contain the separator.
+	rest := msgKey
+	for i := 3; i > 0; i-- {
+		index := strings.LastIndex(rest, "__")
+		if index < 0 {
+			err := fmt.Errorf("not enough keys. msgKey = %s", msgKey)
+			log.Error(err)
+			return nil, err
+		}
+
+		keys[i] = rest[index+len("__"):]
+		rest = rest[:index]
 	}
+	keys[0] = rest
 
 	return keys, nil
 }
-- 
2.43.0


From 85f98003d5fb2bbd52ba7630a3d47e2f08eacff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 18/53] fix: return the right round for ecdsa signing 2 and
 eddsa keygen 2 messages

---
 core/message/tss_phase_messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 835ab9d..c91caa0 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -47,7 +47,7 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	case *ecsigning.SignRound1Message1, *ecsigning.SignRound1Message2:
 		return EcSigning1, nil
 	case *ecsigning.SignRound2Message:
-		return EcSigning1, nil
+		return EcSigning2, nil
 	case *ecsigning.SignRound3Message:
 		return EcSigning3, nil
 	case *ecsigning.SignRound4Message:
@@ -63,7 +63,7 @@ func GetMsgRound(content tss.MessageContent) (Round, error) {
 	case *edkeygen.KGRound1Message:
 		return EdKeygen1, nil
 	case *edkeygen.KGRound2Message1, *edkeygen.KGRound2Message2:
-		return EcKeygen2, nil
+		return EdKeygen2, nil
 	case *edsigning.SignRound1Message:
 		return EdSigning1, nil
 	case *edsigning.SignRound2Message:
-- 
2.43.0


From 019270caff567356af5ed01b2ef180c52a7d64e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 19/53] fix: wait for all kinds of messages of a signing job to
 be sent before it is done

---
 core/message/tss_phase_messages.go |  2 +-
 worker/job.go                      | 11 +++++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index c91caa0..04139e2 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -85,7 +85,7 @@ func GetMessageCountByWorkType(jobType wtypes.WorkType, isPresign bool) int {
 			return 1
 		}
 
-		return 7
+		return 8
 	case wtypes.EdKeygen:
 		return 3
 	case wtypes.EdSigning:
diff --git a/worker/job.go b/worker/job.go
index b95e382..62f4894 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -59,6 +59,7 @@ type Job struct {
 
 	// Ecdsa
 	hasPresignData bool
+	isPresigning   bool // There is no message to sign, the job stops before the last round.
 	ecEndKeygenCh  chan eckeygen.LocalPartySaveData
 	ecEndSigningCh chan *ecsigning.SignatureData
 
@@ -119,6 +120,7 @@ func NewEcSigningJob(
 	job := baseJob(workId, index, party, wTypes.EcSigning, callback, outCh, timeOut)
 	job.ecEndSigningCh = endCh
 	job.hasPresignData = signingInput != nil
+	job.isPresigning = msg == nil
 
 	return job
 }
@@ -157,7 +159,7 @@ func NewEdSigningJob(
 
 	party := edsigning.NewLocalParty(new(big.Int).SetBytes(msg), params, signingInput, outCh, endCh)
 
-	job := baseJob(workId, index, party, wTypes.EdKeygen, callback, outCh, timeOut)
+	job := baseJob(workId, index, party, wTypes.EdSigning, callback, outCh, timeOut)
 	job.edEndSigningCh = endCh
 
 	return job
@@ -300,7 +302,12 @@ func (job *Job) addOutMessage(msg tss.Message) {
 	count := len(job.finishedMsgs)
 	job.finishLock.Unlock()
 
-	if count == message.GetMessageCountByWorkType(job.jobType, job.hasPresignData) {
+	total := message.GetMessageCountByWorkType(job.jobType, job.hasPresignData)
+	if job.isPresigning {
+		total--
+	}
+
+	if count == total {
 		// Mark the outCh done
 		job.doneOutCh.Store(true)
 	}
-- 
2.43.0


From 33bae4e0bd209b434b3ca2bcde5f32b7a0196e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:33 +0000
Subject: [PATCH 20/53] fix: know the messages of the eddsa protocols so that
 missing ones can be asked for

---
 core/message/tss_phase_messages.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/message/tss_phase_messages.go b/core/message/tss_phase_messages.go
index 04139e2..d533a00 100644
--- a/core/message/tss_phase_messages.go
+++ b/core/message/tss_phase_messages.go
@@ -117,6 +117,20 @@ func GetMessagesByWorkType(jobType wtypes.WorkType) []string {
 			string(proto.MessageName(&ecsigning.SignRound6Message{})),
 			string(proto.MessageName(&ecsigning.SignRound7Message{})),
 		}
+
+	case wtypes.EdKeygen:
+		return []string{
+			string(proto.MessageName(&edkeygen.KGRound1Message{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message1{})),
+			string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		}
+
+	case wtypes.EdSigning:
+		return []string{
+			string(proto.MessageName(&edsigning.SignRound1Message{})),
+			string(proto.MessageName(&edsigning.SignRound2Message{})),
+			string(proto.MessageName(&edsigning.SignRound3Message{})),
+		}
 	}
 
 	return make([]string, 0)
@@ -133,7 +147,12 @@ func IsBroadcastMessage(msgType string) bool {
 		string(proto.MessageName(&ecsigning.SignRound4Message{})),
 		string(proto.MessageName(&ecsigning.SignRound5Message{})),
 		string(proto.MessageName(&ecsigning.SignRound6Message{})),
-		string(proto.MessageName(&ecsigning.SignRound7Message{})):
+		string(proto.MessageName(&ecsigning.SignRound7Message{})),
+		string(proto.MessageName(&edkeygen.KGRound1Message{})),
+		string(proto.MessageName(&edkeygen.KGRound2Message2{})),
+		string(proto.MessageName(&edsigning.SignRound1Message{})),
+		string(proto.MessageName(&edsigning.SignRound2Message{})),
+		string(proto.MessageName(&edsigning.SignRound3Message{})):
 
 		return true
 	default:
-- 
2.43.0


From c25febc5b1fa1842a8bcd2a8d5d93c229f7b08dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:36 +0000
Subject: [PATCH 21/53] fix: never start more works than the limit when
 requests and completions come at the same time

---
 core/engine.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index f04dc23..d832356 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -148,7 +148,7 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 	return nil
 }
 
-// startWork creates a new worker to execute a new task.
+// startWork creates a new worker to execute a new task. The caller must hold the work lock.
 func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	var w worker.Worker
 	// Make a copy of myPid since the index will be changed during the TSS work.
@@ -165,8 +165,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 			engine.config, MaxBatchSize, engine.presignsManager)
 	}
 
-	engine.workLock.Lock()
-
 	engine.workers[request.WorkId] = w
 	cachedMsgs := engine.preworkCache.PopAllMessages(request.WorkId, nil)
 	log.Info("Starting a work with id ", request.WorkId, " with cache size ", len(cachedMsgs))
@@ -174,8 +172,6 @@ func (engine *defaultEngine) startWork(request *types.WorkRequest) {
 	if err := w.Start(cachedMsgs); err != nil {
 		log.Error("Cannot start work error = ", err)
 	}
-
-	engine.workLock.Unlock()
 }
 
 // ProcessNewMessage processes new incoming tss message from network.
@@ -250,14 +246,14 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 func (engine *defaultEngine) finishWorker(workId string) {
 	engine.workLock.Lock()
 	delete(engine.workers, workId)
-	engine.workLock.Unlock()
 
 	// fmt.Println
 	s := fmt.Sprintf("%s finished work %s: remaining work id ", engine.myPid.Id, workId)
 	for id := range engine.workers {
 		s += id
 	}
-	log.Verbosef(s)
+	engine.workLock.Unlock()
+	log.Verbose(s)
 
 	// Start next work
 	engine.startNextWork()
@@ -266,16 +262,17 @@ func (engine *defaultEngine) finishWorker(workId string) {
 // startNextWork gets a request from the queue (if not empty) and execute it. If there is no
 // available worker, wait for one of the current worker to finish before running.
 func (engine *defaultEngine) startNextWork() {
+	// Hold the lock until the new worker is registered. Otherwise, another routine could start a work
+	// in the same slot.
 	engine.workLock.Lock()
+	defer engine.workLock.Unlock()
+
 	if len(engine.workers) >= MaxWorker {
 		log.Verbosef("Max work reach, worker queue len = %d", len(engine.workers))
-		engine.workLock.Unlock()
 		return
 	}
 
 	nextWork := engine.requestQueue.Pop()
-	engine.workLock.Unlock()
-
 	if nextWork == nil {
 		return
 	}
-- 
2.43.0


From 7f4fe8159a8bed2a8ff0f7c2815b93afec48fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:45 +0000
Subject: [PATCH 22/53] fix: do not start a work again while it is running

---
 core/engine.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index d832356..851ca03 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -141,7 +141,17 @@ func (engine *defaultEngine) AddRequest(request *types.WorkRequest) error {
 		}
 	}
 
-	if engine.requestQueue.AddWork(request) {
+	engine.workLock.Lock()
+	if engine.workers[request.WorkId] != nil {
+		engine.workLock.Unlock()
+		log.Warnf("Work %s is already running", request.WorkId)
+		return nil
+	}
+
+	added := engine.requestQueue.AddWork(request)
+	engine.workLock.Unlock()
+
+	if added {
 		engine.startNextWork()
 	}
 
-- 
2.43.0


From 5dd6c4ac677d5748c1deb436131a800633d6c3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 23/53] fix: do not block on nested or unreleased read locks in
 the engine

---
 core/engine.go | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 851ca03..bd773bf 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -200,7 +200,7 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 		addToCache := false
 
 		engine.workLock.RLock()
-		worker := engine.getWorker(tssMsg.WorkId)
+		worker := engine.workers[tssMsg.WorkId]
 		if worker == nil {
 			// This could be the case when a worker has not started yet. Save it to the cache.
 			engine.preworkCache.AddMessage(tssMsg)
@@ -237,10 +237,8 @@ func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error
 	}
 
 	var dest *tss.PartyID
-	for _, node := range engine.nodes {
-		if node.PartyId.Id == tssMsg.From {
-			dest = node.PartyId
-		}
+	if node := engine.getNodeFromPeerId(tssMsg.From); node != nil {
+		dest = node.PartyId
 	}
 
 	if dest != nil {
@@ -297,13 +295,6 @@ func (engine *defaultEngine) getNodeFromPeerId(peerId string) *Node {
 	return engine.nodes[peerId]
 }
 
-func (engine *defaultEngine) getWorker(workId string) worker.Worker {
-	engine.workLock.RLock()
-	defer engine.workLock.RUnlock()
-
-	return engine.workers[workId]
-}
-
 // Broadcast a message to everyone in a list.
 func (engine *defaultEngine) BroadcastMessage(pIDs []*tss.PartyID, tssMessage *common.TssMessage) {
 	if tssMessage.To == engine.myPid.Id {
@@ -370,11 +361,11 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 			continue
 		}
 
-		node := engine.getNodeFromPeerId(pid.Id)
+		node := engine.nodes[pid.Id]
 
 		if node == nil {
 			log.Errorf("Cannot find node with party key %s", pid.Id)
-			return
+			continue
 		}
 
 		peerIds = append(peerIds, node.PeerId)
-- 
2.43.0


From 7236e726c1655d7b10f58ef5acae54ed01d031eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:03 +0000
Subject: [PATCH 24/53] fix: report that a node was not selected for eddsa
 signing as well

---
 core/engine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index bd773bf..ada522e 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -443,7 +443,7 @@ func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	case types.EcKeygen:
 		// This should not happen as in keygen all nodes should be selected.
 
-	case types.EcSigning:
+	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
 			Outcome: htypes.OutcometNotSelected,
 		}
-- 
2.43.0


From 498a56fc6d292e30209dea18e60ade7fec192057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:13 +0000
Subject: [PATCH 25/53] fix: report an eddsa signing as failed when any of its
 signatures is invalid

---
 core/engine_eddsa.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/engine_eddsa.go b/core/engine_eddsa.go
index 3097de1..6665dbb 100644
--- a/core/engine_eddsa.go
+++ b/core/engine_eddsa.go
@@ -11,6 +11,7 @@ import (
 	"github.com/sisu-network/lib/log"
 	edkeygen "github.com/sisu-network/tss-lib/eddsa/keygen"
 	edsigning "github.com/sisu-network/tss-lib/eddsa/signing"
+	"github.com/sisu-network/tss-lib/tss"
 )
 
 func (engine *defaultEngine) onEdKeygenFinished(request *wtypes.WorkRequest, output *edkeygen.LocalPartySaveData) {
@@ -37,9 +38,13 @@ func (engine *defaultEngine) onEdSigningFinished(request *wtypes.WorkRequest, da
 
 	myKeygen := request.EdSigningInput
 	pubkey := edwards.NewPublicKey(myKeygen.EDDSAPub.X(), myKeygen.EDDSAPub.Y())
-	if !edwards.Verify(pubkey, request.Messages[0], new(big.Int).SetBytes(data[0].Signature.R),
-		new(big.Int).SetBytes(data[0].Signature.S)) {
-		log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[0]))
+	for i := range data {
+		if !edwards.Verify(pubkey, request.Messages[i], new(big.Int).SetBytes(data[i].Signature.R),
+			new(big.Int).SetBytes(data[i].Signature.S)) {
+			log.Critical("EDDSA signing failed, msg hex = ", hex.EncodeToString(request.Messages[i]))
+			engine.callback.OnWorkFailed(request, make([]*tss.PartyID, 0))
+			return
+		}
 	}
 
 	result := &htypes.KeysignResult{
-- 
2.43.0


From 3a9be05faeff0a5c23d9c141090df6062a884ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 26/53] fix: only accept messages signed by the node they claim
 to come from

---
 core/engine.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index ada522e..cc8829c 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -419,7 +419,11 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 		return
 	}
 
-	// TODO: Check message signature here.
+	if err := engine.verifySignedMessage(signedMessage); err != nil {
+		log.Error("Ignore a message that cannot be verified, err = ", err)
+		return
+	}
+
 	if tssMessage.Type == common.TssMessage_UPDATE_MESSAGES && len(tssMessage.UpdateMessages) > 0 &&
 		tssMessage.IsBroadcast() {
 		engine.cacheWorkMsg(signedMessage)
@@ -430,6 +434,39 @@ func (engine *defaultEngine) OnNetworkMessage(message *p2ptypes.P2PMessage) {
 	}
 }
 
+// verifySignedMessage checks that a message comes from the node that it claims to come from. This
+// could be different from the peer that delivers this message.
+func (engine *defaultEngine) verifySignedMessage(signedMessage *common.SignedMessage) error {
+	tssMessage := signedMessage.TssMessage
+	if signedMessage.From != tssMessage.From {
+		return fmt.Errorf("message is signed by %s but comes from %s", signedMessage.From, tssMessage.From)
+	}
+
+	if tssMessage.From == engine.myPid.Id {
+		return fmt.Errorf("message comes from this node")
+	}
+
+	if !tssMessage.IsBroadcast() && tssMessage.To != engine.myPid.Id {
+		return fmt.Errorf("message is for a different node %s", tssMessage.To)
+	}
+
+	node := engine.getNodeFromPeerId(tssMessage.From)
+	if node == nil {
+		return fmt.Errorf("unknown sender %s", tssMessage.From)
+	}
+
+	serialized, err := json.Marshal(tssMessage)
+	if err != nil {
+		return fmt.Errorf("error when marshalling message %w", err)
+	}
+
+	if !node.PubKey.VerifySignature(serialized, signedMessage.Signature) {
+		return fmt.Errorf("invalid signature of sender %s", tssMessage.From)
+	}
+
+	return nil
+}
+
 func (engine *defaultEngine) GetActiveWorkerCount() int {
 	engine.workLock.RLock()
 	defer engine.workLock.RUnlock()
-- 
2.43.0


From c5043b83bdd485272f4800c35a273ce4f8513860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:45 +0000
Subject: [PATCH 27/53] fix: do not crash or block on incomplete, unexpected or
 repeated messages of a worker

---
 core/engine.go              |  5 ++++
 worker/default_worker.go    |  6 ++---
 worker/prework_selection.go | 49 +++++++++++++++++++++++++++++++------
 worker/worker_executor.go   |  8 ++++++
 4 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index cc8829c..825b5f5 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"sync"
 
@@ -219,6 +220,10 @@ func (engine *defaultEngine) ProcessNewMessage(tssMsg *commonTypes.TssMessage) e
 }
 
 func (engine *defaultEngine) OnAskMessage(tssMsg *commonTypes.TssMessage) error {
+	if tssMsg.AskRequestMessage == nil {
+		return errors.New("ask request message is nil")
+	}
+
 	msgKey := tssMsg.AskRequestMessage.MsgKey
 	keys, err := commonTypes.ExtractMessageKey(msgKey)
 	if err != nil {
diff --git a/worker/default_worker.go b/worker/default_worker.go
index e6e0992..a594fb6 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -264,7 +264,7 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 			// We have not started execution yet.
 			w.preExecutionCache.AddMessage(msg)
 			addToCache = true
-			log.Verbose("Adding to cache 1:", w.workId, w.myPid.Id, msg.UpdateMessages[0].Round)
+			log.Verbose("Adding to cache 1:", w.workId, w.myPid.Id, " from ", msg.From)
 		}
 
 		w.lock.RUnlock()
@@ -272,8 +272,8 @@ func (w *DefaultWorker) ProcessNewMessage(msg *commonTypes.TssMessage) error {
 		if !addToCache && w.executor != nil {
 			err := w.executor.ProcessUpdateMessage(msg)
 			if err != nil {
-				log.Errorf("Failed to process update message %s, %s, err = %s", w.workId,
-					msg.UpdateMessages[0].Round, err)
+				log.Errorf("Failed to process update message %s, from %s, err = %s", w.workId,
+					msg.From, err)
 			}
 		}
 
diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index f25e443..3d78be9 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -50,6 +50,7 @@ type PreworkSelection struct {
 	callback         func(SelectionResult)
 	preExecMsgCh     chan *common.PreExecOutputMessage
 	memberResponseCh chan *common.TssMessage
+	doneCh           chan struct{} // Closed when the selection has a result.
 	cfg              config.TimeoutConfig
 
 	///////////////////////
@@ -80,6 +81,7 @@ func NewPreworkSelection(request *types.WorkRequest, allParties []*tss.PartyID,
 		preExecMsgCh:     make(chan *commonTypes.PreExecOutputMessage, 1),
 		presignsManager:  presignsManager,
 		memberResponseCh: make(chan *commonTypes.TssMessage, len(allParties)),
+		doneCh:           make(chan struct{}),
 		callback:         callback,
 		stopped:          atomic.NewBool(false),
 		cfg:              cfg,
@@ -128,7 +130,8 @@ func (s *PreworkSelection) Stop() {
 func (s *PreworkSelection) doPreExecutionAsLeader(cachedMsgs []*commonTypes.TssMessage) {
 	// Update availability from cache first.
 	for _, tssMsg := range cachedMsgs {
-		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
+		if tssMsg.Type == common.TssMessage_AVAILABILITY_RESPONSE && tssMsg.AvailabilityResponseMessage != nil &&
+			tssMsg.AvailabilityResponseMessage.Answer == common.AvailabilityResponseMessage_YES {
 			// update the availability.
 			for _, p := range s.allParties {
 				if p.Id == tssMsg.From {
@@ -303,7 +306,7 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 func (s *PreworkSelection) doPreExecutionAsMember(leader *tss.PartyID, cachedMsgs []*commonTypes.TssMessage) {
 	// Check in the cache to see if the leader has sent a message to this node regarding the participants.
 	for _, msg := range cachedMsgs {
-		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT {
+		if msg.Type == common.TssMessage_PRE_EXEC_OUTPUT && msg.PreExecOutputMessage != nil && msg.From == leader.Id {
 			log.Verbose("We have received final OUTCOME, work id = ", s.request.WorkId)
 			s.memberFinalized(msg.PreExecOutputMessage)
 			return
@@ -422,6 +425,7 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 
 func (s *PreworkSelection) broadcastResult(result SelectionResult) {
 	s.stopped.Store(true)
+	close(s.doneCh)
 
 	s.callback(result)
 }
@@ -437,9 +441,9 @@ func (s *PreworkSelection) ProcessNewMessage(tssMsg *commonTypes.TssMessage) err
 			return fmt.Errorf("error when processing execution response %w", err)
 		}
 	case common.TssMessage_PRE_EXEC_OUTPUT:
-		// This output of workParticipantCh is called only once. We do checking for pids length to
-		// make sure we only send message to this channel once.
-		s.preExecMsgCh <- tssMsg.PreExecOutputMessage
+		if err := s.onPreExecutionOutput(tssMsg); err != nil {
+			return fmt.Errorf("error when processing execution output %w", err)
+		}
 
 	default:
 		return errors.New("defaultPreworkSelection: invalid message " + tssMsg.Type.String())
@@ -468,8 +472,37 @@ func (s *PreworkSelection) onPreExecutionRequest(tssMsg *commonTypes.TssMessage)
 }
 
 func (s *PreworkSelection) onPreExecutionResponse(tssMsg *commonTypes.TssMessage) error {
-	// TODO: Check if we have finished selection process. Otherwise, this could create a blocking
-	// operation.
-	s.memberResponseCh <- tssMsg
+	if tssMsg.AvailabilityResponseMessage == nil {
+		return errors.New("availability response message is nil")
+	}
+
+	if s.myPid.Id != s.leader.Id {
+		return fmt.Errorf("this node is not the leader, the response is from %s", tssMsg.From)
+	}
+
+	select {
+	case s.memberResponseCh <- tssMsg:
+	case <-s.doneCh:
+		// The selection has finished, nobody reads the responses.
+	}
+
+	return nil
+}
+
+func (s *PreworkSelection) onPreExecutionOutput(tssMsg *commonTypes.TssMessage) error {
+	if tssMsg.PreExecOutputMessage == nil {
+		return errors.New("pre execution output message is nil")
+	}
+
+	if s.myPid.Id == s.leader.Id || tssMsg.From != s.leader.Id {
+		return fmt.Errorf("the output is not from the leader but from %s", tssMsg.From)
+	}
+
+	select {
+	case s.preExecMsgCh <- tssMsg.PreExecOutputMessage:
+	default:
+		// Only one output is used and there is one in the channel.
+	}
+
 	return nil
 }
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 59343e0..372f333 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -346,8 +346,16 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 		return errors.New("sender is nil")
 	}
 
+	if len(tssMsg.UpdateMessages) != len(jobs) {
+		return fmt.Errorf("expected %d update messages but there are %d", len(jobs), len(tssMsg.UpdateMessages))
+	}
+
 	for i := range jobs {
 		updateMessage := tssMsg.UpdateMessages[i]
+		if updateMessage == nil {
+			return errors.New("update message is nil")
+		}
+
 		msg, err := tss.ParseWireMessage(updateMessage.Data, from, tssMsg.IsBroadcast())
 		if err != nil {
 			return fmt.Errorf("error when parsing wire message %w", err)
-- 
2.43.0


From 03f8513b87edf5a758995146e892c628fd346fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 28/53] fix: refuse a selection with repeated nodes, without
 its leader or with too few presigns

---
 worker/prework_selection.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index 3d78be9..d5ccca5 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -413,14 +413,26 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		return false
 	}
 
+	if len(msg.PresignIds) > 0 && len(msg.PresignIds) != s.request.BatchSize {
+		// There must be one presign for each message.
+		return false
+	}
+
+	hasLeader := false
+	selected := make(map[string]bool)
 	for _, pid := range msg.Pids {
 		partyId := helper.GetPidFromString(pid, s.allParties)
-		if partyId == nil {
+		if partyId == nil || selected[pid] {
 			return false
 		}
+
+		selected[pid] = true
+		if pid == s.leader.Id {
+			hasLeader = true
+		}
 	}
 
-	return true
+	return hasLeader
 }
 
 func (s *PreworkSelection) broadcastResult(result SelectionResult) {
-- 
2.43.0


From 1f12b58a160f8104f564a47cb34cc5a12160b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:31 +0000
Subject: [PATCH 29/53] fix: a response at the deadline must not make the
 leader skip the participants it has

---
 worker/prework_selection.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index d5ccca5..fa733d0 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -175,16 +175,10 @@ func (s *PreworkSelection) doPreExecutionAsLeader(cachedMsgs []*commonTypes.TssM
 
 func (s *PreworkSelection) waitForMemberResponse() ([]string, []*tss.PartyID, error) {
 	// Wait for everyone to reply or timeout.
-	end := time.Now().Add(s.cfg.SelectionLeaderTimeout)
+	timeout := time.After(s.cfg.SelectionLeaderTimeout)
 	for {
-		now := time.Now()
-		if now.After(end) {
-			break
-		}
-
-		timeDiff := end.Sub(now)
 		select {
-		case <-time.After(timeDiff):
+		case <-timeout:
 			if s.request.IsSigning() && s.availableParties.Length() >= s.request.Threshold+1 {
 				log.Info("Wait timeouted for signing but we got enough participants for presign.")
 				// We have enough online participants but cannot find a presign set for all of them. This
@@ -229,8 +223,6 @@ func (s *PreworkSelection) waitForMemberResponse() ([]string, []*tss.PartyID, er
 			}
 		}
 	}
-
-	return nil, nil, errors.New("cannot find enough members for this work")
 }
 
 // checkEnoughParticipants is a function called by the leader in the election to see if we have
-- 
2.43.0


From e603997a57c6e3a238dfaa61bc6183a9dc7d9e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:42 +0000
Subject: [PATCH 30/53] fix: members must wait for the leader longer than the
 leader waits for them

---
 core/config/timeout.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/config/timeout.go b/core/config/timeout.go
index 90b2df1..9c5cf47 100644
--- a/core/config/timeout.go
+++ b/core/config/timeout.go
@@ -21,7 +21,9 @@ func NewDefaultTimeoutConfig() TimeoutConfig {
 		SigningJobTimeout:      defaultJobTimeout,
 		PresignJobTimeout:      defaultJobTimeout,
 		MonitorMessageTimeout:  time.Second * 15,
-		SelectionLeaderTimeout: selectionLeaderTimeout + time.Second*15,
-		SelectionMemberTimeout: selectionLeaderTimeout,
+		SelectionLeaderTimeout: selectionLeaderTimeout,
+		// Members wait longer than the leader since the leader could use all of its time before sending
+		// its selection.
+		SelectionMemberTimeout: selectionLeaderTimeout + time.Second*15,
 	}
 }
-- 
2.43.0


From b67fa397b6e0ce9d899e562060e6b17ab942a225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 31/53] fix: report a work whose jobs cannot be created as
 failed instead of crashing

---
 worker/default_worker.go  |  8 +++++++-
 worker/worker_executor.go | 19 ++++++++++++++++++-
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/worker/default_worker.go b/worker/default_worker.go
index a594fb6..ccfa107 100644
--- a/worker/default_worker.go
+++ b/worker/default_worker.go
@@ -218,7 +218,13 @@ func (w *DefaultWorker) getEdExecutor(selectedPids []*tss.PartyID) *WorkerExecut
 }
 
 func (w *DefaultWorker) runExecutor(executor *WorkerExecutor) {
-	executor.Init()
+	if err := executor.Init(); err != nil {
+		log.Error("Cannot init the executor, err = ", err)
+		executor.broadcastResult(ExecutionResult{
+			Success: false,
+		})
+		return
+	}
 
 	cacheMsgs := w.preExecutionCache.PopAllMessages(w.workId, commonTypes.GetUpdateMessageType())
 	go executor.Run(cacheMsgs)
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index 372f333..c7c1e91 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -119,12 +119,24 @@ func NewWorkerExecutor(
 }
 
 func (w *WorkerExecutor) Init() (err error) {
+	defer func() {
+		// tss-lib panics on some inputs, a keygen output that does not match the selected parties for
+		// example.
+		if r := recover(); r != nil {
+			err = fmt.Errorf("cannot create jobs: %v", r)
+		}
+	}()
+
 	if w.workType == wTypes.EcKeygen {
 		if w.request.EcKeygenInput == nil {
 			err = w.loadPreparams()
 		} else {
 			w.ecKeygenInput = w.request.EcKeygenInput
 		}
+
+		if err != nil {
+			return err
+		}
 	}
 
 	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
@@ -137,6 +149,11 @@ func (w *WorkerExecutor) Init() (err error) {
 	log.Infof("%s WorkerExecutor WorkType = %s", w.myPid.Id, w.workType)
 
 	workId := w.request.WorkId
+	chain := ""
+	if len(w.request.Chains) > 0 {
+		chain = w.request.Chains[0]
+	}
+
 	// Creates all jobs
 	for i := range jobs {
 		switch w.workType {
@@ -152,7 +169,7 @@ func (w *WorkerExecutor) Init() (err error) {
 				presignOutput = w.ecPresignOutput[i]
 			}
 			jobs[i] = NewEcSigningJob(workId, i, w.pIDs, params, []byte(w.request.Messages[i]),
-				*w.request.EcSigningInput, presignOutput, w, w.cfg.SigningJobTimeout, w.request.Chains[0])
+				*w.request.EcSigningInput, presignOutput, w, w.cfg.SigningJobTimeout, chain)
 
 		// Eddsa
 		case wTypes.EdKeygen:
-- 
2.43.0


From 4ede2833b765448696e5aa048839af74fd2211a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 32/53] fix: a malformed message of a participant must not
 crash the whole process

---
 worker/worker_executor.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index c7c1e91..c09e2a1 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -391,6 +391,17 @@ func (w *WorkerExecutor) ProcessUpdateMessage(tssMsg *commonTypes.TssMessage) er
 
 	for i, j := range jobs {
 		go func(jobIndex int, job *Job) {
+			defer func() {
+				// tss-lib panics on some malformed messages.
+				if r := recover(); r != nil {
+					log.Error("worker: panic while processing message, err = ", r)
+
+					w.broadcastResult(ExecutionResult{
+						Success: false,
+					})
+				}
+			}()
+
 			_, err := message.GetMsgRound(msgs[jobIndex].Content())
 			if err != nil {
 				log.Error("error when getting round %w", err)
-- 
2.43.0


From f25dd4693dd45c9065bf0972e0f1e45a2156e86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:54 +0000
Subject: [PATCH 33/53] fix: a job must time out even when sending one of its
 messages takes long

---
 worker/job.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/worker/job.go b/worker/job.go
index 62f4894..4667f3e 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -215,20 +215,26 @@ func (job *Job) Start() error {
 
 func (job *Job) startListening() {
 	outCh := job.outCh
-	endTime := time.Now().Add(job.timeOut)
+	timeoutCh := make(chan struct{})
+
+	// The timeout has its own routine since sending a message to a slow node can block this one.
+	timer := time.AfterFunc(job.timeOut, func() {
+		close(timeoutCh)
+
+		if !job.doneEndCh.Load() {
+			log.Warn("Job timeout waiting for end channel")
+			job.callback.OnJobResult(job, JobResult{
+				Success: false,
+				Failure: JobFailureTimeout,
+			})
+		}
+	})
+	defer timer.Stop()
 
 	// Wait for one of the end channel.
 	for {
 		select {
-		case <-time.After(endTime.Sub(time.Now())):
-			if !job.isDone() {
-				log.Warn("Job timeout waiting for end channel")
-				go job.callback.OnJobResult(job, JobResult{
-					Success: false,
-					Failure: JobFailureTimeout,
-				})
-			}
-
+		case <-timeoutCh:
 			return
 
 		case msg := <-outCh:
-- 
2.43.0


From 336239b8a52e899a27ed642cc04b8363a43c42ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:04 +0000
Subject: [PATCH 34/53] fix: a slow or unreachable node must not delay messages
 for other nodes

---
 core/engine.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 825b5f5..92572f8 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -377,10 +377,17 @@ func (engine *defaultEngine) sendSignMessaged(signedMessage *common.SignedMessag
 	}
 	engine.nodeLock.RUnlock()
 
-	// Write to stream
+	// Write to streams. A slow or unreachable node must not delay the message for other nodes.
+	wg := &sync.WaitGroup{}
 	for _, peerId := range peerIds {
-		engine.cm.WriteToStream(peerId, p2p.TSSProtocolID, bz)
+		wg.Add(1)
+
+		go func(peerId peer.ID) {
+			defer wg.Done()
+			engine.cm.WriteToStream(peerId, p2p.TSSProtocolID, bz)
+		}(peerId)
 	}
+	wg.Wait()
 }
 
 // getSignedMessageBytes signs a tss message and returns serialized bytes of the signed message.
-- 
2.43.0


From 4d9390190260b8c6b1b7b95b67afad0441cc5d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 35/53] fix: replace broken streams instead of writing to them
 forever

---
 p2p/connection.go         | 48 ++++++++++++++++++++++++++++++++-------
 p2p/connection_manager.go |  5 ++--
 2 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/p2p/connection.go b/p2p/connection.go
index 0f8b931..ae7cc7c 100644
--- a/p2p/connection.go
+++ b/p2p/connection.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"fmt"
 	"sync"
+	"time"
 
 	"github.com/libp2p/go-libp2p/core/host"
 	"github.com/libp2p/go-libp2p/core/network"
@@ -33,6 +34,9 @@ func NewConnection(pID peer.ID, addr maddr.Multiaddr, host *host.Host) *Connecti
 }
 
 func (con *Connection) ReleaseStream() {
+	con.lock.Lock()
+	defer con.lock.Unlock()
+
 	for _, stream := range con.streams {
 		if stream != nil {
 			stream.Reset()
@@ -40,6 +44,7 @@ func (con *Connection) ReleaseStream() {
 	}
 }
 
+// createStream creates a new stream for a protocol. The caller must hold the lock.
 func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, error) {
 	ctx, cancel := context.WithTimeout(context.Background(), TimeoutConnecting)
 	defer cancel()
@@ -55,18 +60,45 @@ func (con *Connection) createStream(protocolId protocol.ID) (network.Stream, err
 }
 
 func (con *Connection) writeToStream(msg []byte, protocolId protocol.ID) error {
-	stream := con.streams[protocolId]
-	if stream == nil {
-		var err error
-		stream, err = con.createStream(protocolId)
-		if err != nil {
-			log.Warnf("Cannot create a new stream, err = %v", err)
-			return err
-		}
+	if len(msg) > MaxPayload {
+		return fmt.Errorf("payload length:%d exceed max payload length:%d", len(msg), MaxPayload)
 	}
 
 	con.lock.Lock()
 	defer con.lock.Unlock()
 
+	if stream := con.streams[protocolId]; stream != nil {
+		err := con.writeWithDeadline(msg, stream)
+		if err == nil {
+			return nil
+		}
+
+		// This stream is broken (the other peer could have restarted). Drop it and use a new one.
+		log.Warnf("Cannot write to the existing stream, err = %v", err)
+		stream.Reset()
+		delete(con.streams, protocolId)
+	}
+
+	stream, err := con.createStream(protocolId)
+	if err != nil {
+		log.Warnf("Cannot create a new stream, err = %v", err)
+		return err
+	}
+
+	if err := con.writeWithDeadline(msg, stream); err != nil {
+		stream.Reset()
+		delete(con.streams, protocolId)
+		return err
+	}
+
+	return nil
+}
+
+// writeWithDeadline does not wait forever for a peer that no longer reads.
+func (con *Connection) writeWithDeadline(msg []byte, stream network.Stream) error {
+	if err := stream.SetWriteDeadline(time.Now().Add(TimeoutWritePayload)); err != nil {
+		log.Verbose("Cannot set write deadline, err = ", err)
+	}
+
 	return WriteStreamWithBuffer(msg, stream)
 }
diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 07ad60b..0c66b34 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -174,14 +174,15 @@ func (cm *DefaultConnectionManager) handleStream(stream network.Stream) {
 
 		if err != nil {
 			log.Warn(err)
-			// TODO: handle retry here.
+			// Let the other peer know that nobody reads this stream so that it uses a new one.
+			stream.Reset()
 			return
 		}
 		if dataBuf != nil {
 			listener := cm.getListener(protocol)
 			if listener == nil {
 				// No listener. Ignore the message
-				return
+				continue
 			}
 
 			go func(peerIDString string, dataBuf []byte) {
-- 
2.43.0


From d31c95f50d4accb32edf8e647446126977487fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:39 +0000
Subject: [PATCH 36/53] fix: return an error for a peer address without peer id
 instead of crashing

---
 p2p/connection_manager.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 0c66b34..5dacc39 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -100,12 +100,17 @@ func (cm *DefaultConnectionManager) Start(privKeyBytes []byte, keyType string) e
 	log.Info("cm.config.BootstrapPeers = ", cm.config.Peers)
 	cm.bootstrapPeers = make([]maddr.Multiaddr, len(cm.config.Peers))
 	for i, peerString := range cm.config.Peers {
-		peer, err := maddr.NewMultiaddr(peerString.Address)
+		peerAddr, err := maddr.NewMultiaddr(peerString.Address)
 		if err != nil {
 			return err
 		}
 
-		cm.bootstrapPeers[i] = peer
+		// Make sure that the address has the id of the peer.
+		if _, err := peer.AddrInfoFromP2pAddr(peerAddr); err != nil {
+			return fmt.Errorf("invalid peer address %s, err = %w", peerString.Address, err)
+		}
+
+		cm.bootstrapPeers[i] = peerAddr
 	}
 
 	host, err := libp2p.New(
-- 
2.43.0


From f5db89c0174e7ad0b301252059f88b99c2bd73ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:49 +0000
Subject: [PATCH 37/53] fix: a work requested again when its result arrives
 must not be ignored

---
 core/engine.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/core/engine.go b/core/engine.go
index 92572f8..0c1d280 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -488,6 +488,9 @@ func (engine *defaultEngine) GetActiveWorkerCount() int {
 
 // OnNodeNotSelected is called when this node is not selected by the leader in the election round.
 func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
+	// Finish this worker and start the next one (if any).
+	engine.finishWorker(request.WorkId)
+
 	switch request.WorkType {
 	case types.EcKeygen:
 		// This should not happen as in keygen all nodes should be selected.
@@ -498,9 +501,6 @@ func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 		}
 		engine.callback.OnWorkSigningFinished(request, result)
 	}
-
-	// Finish this worker and start the next one (if any).
-	engine.finishWorker(request.WorkId)
 }
 
 func (engine *defaultEngine) OnWorkFailed(request *types.WorkRequest) {
@@ -515,10 +515,11 @@ func (engine *defaultEngine) OnWorkFailed(request *types.WorkRequest) {
 	}
 
 	culprits := worker.GetCulprits()
-	engine.callback.OnWorkFailed(request, culprits)
 
 	// Finish this worker and start the next one (if any).
 	engine.finishWorker(request.WorkId)
+
+	engine.callback.OnWorkFailed(request, culprits)
 }
 
 func (engine *defaultEngine) GetAvailablePresigns(batchSize int, n int,
@@ -537,6 +538,10 @@ func (engine *defaultEngine) GetPresignOutputs(presignIds []string) []*ecsigning
 }
 
 func (engine *defaultEngine) OnWorkerResult(request *types.WorkRequest, result *worker.WorkerResult) {
+	// Finish this worker and start the next one (if any). This is done before making any callback since
+	// the client can request the same work again as soon as it receives the result.
+	engine.finishWorker(request.WorkId)
+
 	switch request.WorkType {
 	// Ecdsa
 	case types.EcKeygen:
@@ -552,7 +557,4 @@ func (engine *defaultEngine) OnWorkerResult(request *types.WorkRequest, result *
 	default:
 		log.Error("OnWorkerResult: Unknown work type ", request.WorkType)
 	}
-
-	// Finish this worker and start the next one (if any).
-	engine.finishWorker(request.WorkId)
 }
-- 
2.43.0


From dfa8cb9a2bb03baf5e82d000f385dd5eef32b10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 38/53] fix: return the request that a signing result belongs
 to

---
 core/heart.go | 61 +++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 50 insertions(+), 11 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 26c2110..3fd2e7f 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -5,7 +5,9 @@ import (
 	"encoding/hex"
 
 	"fmt"
+	"reflect"
 	"strconv"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -51,7 +53,9 @@ type Heart struct {
 	privateKey ctypes.PrivKey
 	aesKey     []byte
 
+	// Requests that do not have any result yet.
 	keysignRequests map[string]*htypes.KeysignRequest
+	requestLock     sync.Mutex
 }
 
 func NewHeart(config config.HeartConfig, client client.Client) *Heart {
@@ -187,21 +191,17 @@ func (h *Heart) OnWorkKeygenFinished(result *htypes.KeygenResult) {
 }
 
 func (h *Heart) OnWorkSigningFinished(request *types.WorkRequest, result *htypes.KeysignResult) {
-	clientRequest := h.keysignRequests[request.WorkId]
-	result.Request = clientRequest
+	// Remove this request before posting the result. Sisu can send the same request again right after
+	// that.
+	result.Request = h.removeKeysignRequest(request.WorkId)
 
 	err := h.client.PostKeysignResult(result)
 	if err != nil {
 		log.Error("Faield to post result back to sisu")
 	}
-
-	// Remove this request.
-	delete(h.keysignRequests, request.WorkId)
 }
 
 func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID) {
-	clientRequest := h.keysignRequests[request.WorkId]
-
 	switch request.WorkType {
 	case types.EcKeygen, types.EdKeygen:
 		result := htypes.KeygenResult{
@@ -213,7 +213,7 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 
 	case types.EcSigning, types.EdSigning:
 		result := htypes.KeysignResult{
-			Request:  clientRequest,
+			Request:  h.removeKeysignRequest(request.WorkId),
 			Outcome:  htypes.OutcomeFailure,
 			Culprits: culprits,
 		}
@@ -221,6 +221,33 @@ func (h *Heart) OnWorkFailed(request *types.WorkRequest, culprits []*tss.PartyID
 	}
 }
 
+// addKeysignRequest saves a request until there is a result for it. It returns false if this request
+// is being processed.
+func (h *Heart) addKeysignRequest(workId string, req *htypes.KeysignRequest) (bool, error) {
+	h.requestLock.Lock()
+	defer h.requestLock.Unlock()
+
+	if current, ok := h.keysignRequests[workId]; ok {
+		if !reflect.DeepEqual(current, req) {
+			return false, fmt.Errorf("a different request with the same message ids is being processed")
+		}
+
+		return false, nil
+	}
+
+	h.keysignRequests[workId] = req
+	return true, nil
+}
+
+func (h *Heart) removeKeysignRequest(workId string) *htypes.KeysignRequest {
+	h.requestLock.Lock()
+	defer h.requestLock.Unlock()
+
+	req := h.keysignRequests[workId]
+	delete(h.keysignRequests, workId)
+	return req
+}
+
 // --- End fo Engine callback /
 
 // --- Implements Server API  /
@@ -371,11 +398,23 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 			signMessages, chains, keygenData)
 	}
 
-	err := h.engine.AddRequest(workRequest)
+	// Save the request before starting the work, the result could come at any time after that.
+	added, err := h.addKeysignRequest(workRequest.WorkId, req)
+	if err != nil {
+		return err
+	}
 
-	h.keysignRequests[workRequest.WorkId] = req
+	if !added {
+		log.Warnf("Request %s is being processed", workRequest.WorkId)
+		return nil
+	}
 
-	return err
+	if err := h.engine.AddRequest(workRequest); err != nil {
+		h.removeKeysignRequest(workRequest.WorkId)
+		return err
+	}
+
+	return nil
 }
 
 // Called at the end of Sisu's block. This could be a time when we can check our CPU resource and
-- 
2.43.0


From e44c2fb5cd2ead39cf5bf84a9eb726446a3e98fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 39/53] fix: return an error for requests that cannot be
 processed

---
 core/heart.go     | 37 +++++++++++++++++++++++++++++++++++--
 server/tss_api.go | 18 ++++++++----------
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 3fd2e7f..0d2ad53 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -315,11 +315,20 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		return ErrDheartNotReady
 	}
 
+	switch keyType {
+	case libchain.KEY_TYPE_ECDSA, libchain.KEY_TYPE_EDDSA:
+	default:
+		return fmt.Errorf("unsupported key type %s", keyType)
+	}
+
 	// TODO: Check if our pubkey is one of the pubkeys.
 	n := len(tPubKeys)
+	nodes := NewNodes(tPubKeys)
+	if n == 0 || len(nodes) != n {
+		return fmt.Errorf("%d of %d public keys are invalid", n-len(nodes), n)
+	}
 	h.valPubkeys = tPubKeys
 
-	nodes := NewNodes(tPubKeys)
 	// For keygen, workId is the same as keygenId
 	workId := keygenId
 	pids := make([]*tss.PartyID, n)
@@ -345,13 +354,35 @@ func (h *Heart) getKey(requestType, chain, workdId string) string {
 	return fmt.Sprintf("%s__%s__%s", requestType, chain, workdId)
 }
 
+func validateKeysignRequest(req *htypes.KeysignRequest) error {
+	if req == nil || len(req.KeysignMessages) == 0 {
+		return fmt.Errorf("there is no message to sign")
+	}
+
+	for i, msg := range req.KeysignMessages {
+		if msg == nil || len(msg.BytesToSign) == 0 {
+			return fmt.Errorf("message at index %d has no bytes to sign", i)
+		}
+	}
+
+	return nil
+}
+
 func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) error {
 	if h.ready.Load() != true {
 		return ErrDheartNotReady
 	}
 
+	if err := validateKeysignRequest(req); err != nil {
+		return err
+	}
+
 	n := len(tPubKeys)
 	nodes := NewNodes(tPubKeys)
+	if n == 0 || len(nodes) != n {
+		return fmt.Errorf("%d of %d public keys are invalid", n-len(nodes), n)
+	}
+
 	pids := make([]*tss.PartyID, n)
 	for i, node := range nodes {
 		pids[i] = node.PartyId
@@ -391,11 +422,13 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	case libchain.KEY_TYPE_EDDSA:
 		keygenData, err := h.db.LoadEdKeygen(req.KeyType)
 		if err != nil {
-			return nil
+			return err
 		}
 
 		workRequest = types.NewEdSigningRequest(workId, pids, utils.GetThreshold(len(pids)),
 			signMessages, chains, keygenData)
+	default:
+		return fmt.Errorf("unsupported key type %s", req.KeyType)
 	}
 
 	// Save the request before starting the work, the result could come at any time after that.
diff --git a/server/tss_api.go b/server/tss_api.go
index 17b6e92..eda15ab 100644
--- a/server/tss_api.go
+++ b/server/tss_api.go
@@ -44,16 +44,10 @@ func (api *TssApi) KeyGen(keygenId string, chain string, keyWrappers []types.Pub
 
 	log.Infof("keygenId = %s, keyType = %s\n", keygenId, chain)
 
-	pubKeys := make([]ctypes.PubKey, len(keyWrappers))
-
-	for i, wrapper := range keyWrappers {
-		keyType := wrapper.KeyType
-		switch keyType {
-		case "ed25519":
-			pubKeys[i] = &ed25519.PubKey{Key: wrapper.Key}
-		case "secp256k1":
-			pubKeys[i] = &secp256k1.PubKey{Key: wrapper.Key}
-		}
+	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
+	if err != nil {
+		log.Error("Failed to get pubkey, err =", err)
+		return err
 	}
 
 	return api.heart.Keygen(keygenId, chain, pubKeys)
@@ -92,6 +86,10 @@ func (api *TssApi) getPubkeysFromWrapper(keyWrappers []types.PubKeyWrapper) ([]c
 }
 
 func (api *TssApi) KeySign(req *types.KeysignRequest, keyWrappers []types.PubKeyWrapper) error {
+	if req == nil {
+		return fmt.Errorf("keysign request is nil")
+	}
+
 	log.Info("There is keysign request with message length ", len(req.KeysignMessages))
 
 	pubKeys, err := api.getPubkeysFromWrapper(keyWrappers)
-- 
2.43.0


From 22fc8be00bc28ea570d451d29e4e390b3219cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:03 +0000
Subject: [PATCH 40/53] fix: do not crash or keep a broken state when keys and
 readiness are set in any order

---
 core/heart.go | 141 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 113 insertions(+), 28 deletions(-)

diff --git a/core/heart.go b/core/heart.go
index 0d2ad53..d77eff4 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -2,6 +2,7 @@ package core
 
 import (
 	"bytes"
+	stded25519 "crypto/ed25519"
 	"encoding/hex"
 
 	"fmt"
@@ -11,6 +12,7 @@ import (
 	"sync/atomic"
 	"time"
 
+	ethcrypto "github.com/ethereum/go-ethereum/crypto"
 	libchain "github.com/sisu-network/lib/chain"
 
 	ctypes "github.com/cosmos/cosmos-sdk/crypto/types"
@@ -53,6 +55,11 @@ type Heart struct {
 	privateKey ctypes.PrivKey
 	aesKey     []byte
 
+	// Controls access to cm, engine, valPubkeys and privateKey.
+	lock sync.RWMutex
+	// Only one private key can be set at a time.
+	privKeyLock sync.Mutex
+
 	// Requests that do not have any result yet.
 	keysignRequests map[string]*htypes.KeysignRequest
 	requestLock     sync.Mutex
@@ -114,31 +121,42 @@ func (h *Heart) Start() error {
 	return nil
 }
 
-func (h *Heart) initConnectionManager() error {
+func (h *Heart) initConnectionManager(privateKey ctypes.PrivKey) error {
 	log.Info("Creating connection manager")
 
+	if h.db == nil {
+		return fmt.Errorf("heart has not been started")
+	}
+
+	myNode := NewNode(privateKey.PubKey())
+	if myNode == nil {
+		return fmt.Errorf("the private key cannot be used as the identity of a node")
+	}
+
 	// Connection manager
-	h.cm = p2p.NewConnectionManager(h.config.Connection)
+	cm := p2p.NewConnectionManager(h.config.Connection)
 
 	// Engine
-	myNode := NewNode(h.privateKey.PubKey())
-	h.engine = NewEngine(myNode, h.cm, h.db, h, h.privateKey, config.NewDefaultTimeoutConfig())
-
-	if h.valPubkeys != nil {
-		h.engine.AddNodes(NewNodes(h.valPubkeys))
+	engine := NewEngine(myNode, cm, h.db, h, privateKey, config.NewDefaultTimeoutConfig())
+	if pubkeys := h.getValPubkeys(); pubkeys != nil {
+		engine.AddNodes(NewNodes(pubkeys))
 	}
 
 	log.Info("Adding engine as listener for connection manager....")
-	err := h.engine.Init()
+	err := engine.Init()
 	if err != nil {
 		return err
 	}
-	h.loadPeers(h.engine)
+	h.loadPeers(engine)
+
+	h.setEngine(cm, engine, privateKey)
 
 	// Start connection manager.
-	err = h.cm.Start(h.privateKey.Bytes(), h.privateKey.Type())
+	err = cm.Start(privateKey.Bytes(), privateKey.Type())
 	if err != nil {
 		log.Error("Cannot start connection manager. err =", err)
+		// The key could be set again later.
+		h.setEngine(nil, nil, nil)
 		return err
 	} else {
 		log.Info("Connected manager started!")
@@ -147,6 +165,52 @@ func (h *Heart) initConnectionManager() error {
 	return nil
 }
 
+func (h *Heart) setEngine(cm p2p.ConnectionManager, engine Engine, privateKey ctypes.PrivKey) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.cm = cm
+	h.engine = engine
+	h.privateKey = privateKey
+
+	if h.cm != nil && h.ready.Load() == true {
+		h.cm.AddListener(p2p.TSSProtocolID, h.engine)
+	}
+}
+
+// getReadyEngine returns the engine when both Sisu and this node are ready.
+func (h *Heart) getReadyEngine() (Engine, error) {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+
+	if h.ready.Load() != true || h.engine == nil {
+		return nil, ErrDheartNotReady
+	}
+
+	return h.engine, nil
+}
+
+func (h *Heart) getPrivateKey() ctypes.PrivKey {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+
+	return h.privateKey
+}
+
+func (h *Heart) getValPubkeys() []ctypes.PubKey {
+	h.lock.RLock()
+	defer h.lock.RUnlock()
+
+	return h.valPubkeys
+}
+
+func (h *Heart) setValPubkeys(pubkeys []ctypes.PubKey) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.valPubkeys = pubkeys
+}
+
 func (h *Heart) loadPeers(engine Engine) {
 	peers := h.db.LoadPeers()
 	if len(peers) == 0 && len(h.config.Connection.Peers) > 0 {
@@ -171,7 +235,7 @@ func (h *Heart) loadPeers(engine Engine) {
 
 		pubkeys = append(pubkeys, pubkey)
 	}
-	h.valPubkeys = pubkeys
+	h.setValPubkeys(pubkeys)
 
 	// Add pubkeys to engine
 	engine.AddNodes(NewNodes(pubkeys))
@@ -255,16 +319,24 @@ func (h *Heart) removeKeysignRequest(workId string) *htypes.KeysignRequest {
 func (h *Heart) SetSisuReady(isReady bool) {
 	log.Info("Sisu ready state = ", isReady)
 
-	h.ready.Store(true)
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
+	h.ready.Store(isReady)
 
-	// Sisu is ready, we are now ready to process messages from network.
-	h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	if isReady && h.cm != nil {
+		// Sisu is ready, we are now ready to process messages from network.
+		h.cm.AddListener(p2p.TSSProtocolID, h.engine) // Add engine to listener
+	}
 }
 
 // TODO: remove this function
 // SetPrivKey receives encrypted private key from Sisu, decrypts it and start the engine,
 // network communication, etc. This is only for integration testing.
 func (h *Heart) SetBootstrappedKeys(tPubKeys []ctypes.PubKey) {
+	h.lock.Lock()
+	defer h.lock.Unlock()
+
 	if h.valPubkeys == nil {
 		h.valPubkeys = tPubKeys
 	}
@@ -283,8 +355,11 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return err
 	}
 
-	if h.privateKey != nil {
-		if bytes.Compare(decrypted, h.privateKey.Bytes()) != 0 {
+	h.privKeyLock.Lock()
+	defer h.privKeyLock.Unlock()
+
+	if privateKey := h.getPrivateKey(); privateKey != nil {
+		if bytes.Compare(decrypted, privateKey.Bytes()) != 0 {
 			return fmt.Errorf("The private key has been set!")
 		}
 
@@ -292,16 +367,24 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 		return nil
 	}
 
+	var privateKey ctypes.PrivKey
 	switch tendermintKeyType {
 	case "ed25519":
-		h.privateKey = &ed25519.PrivKey{Key: decrypted}
+		if len(decrypted) != ed25519.PrivKeySize ||
+			!bytes.Equal(stded25519.NewKeyFromSeed(decrypted[:ed25519.SeedSize]), decrypted) {
+			return fmt.Errorf("Invalid ed25519 private key")
+		}
+		privateKey = &ed25519.PrivKey{Key: decrypted}
 	case "secp256k1":
-		h.privateKey = &secp256k1.PrivKey{Key: decrypted}
+		if _, err := ethcrypto.ToECDSA(decrypted); err != nil {
+			return fmt.Errorf("Invalid secp256k1 private key, err = %v", err)
+		}
+		privateKey = &secp256k1.PrivKey{Key: decrypted}
 	default:
 		return fmt.Errorf("Unsupported key type: %s", tendermintKeyType)
 	}
 
-	err = h.initConnectionManager()
+	err = h.initConnectionManager(privateKey)
 	if err != nil {
 		return fmt.Errorf("Failed to start heart, err = %v", err)
 	}
@@ -310,9 +393,10 @@ func (h *Heart) SetPrivKey(encryptedKey string, tendermintKeyType string) error
 }
 
 func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
+	engine, err := h.getReadyEngine()
+	if err != nil {
 		log.Verbose("Heart not ready")
-		return ErrDheartNotReady
+		return err
 	}
 
 	switch keyType {
@@ -327,7 +411,7 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 	if n == 0 || len(nodes) != n {
 		return fmt.Errorf("%d of %d public keys are invalid", n-len(nodes), n)
 	}
-	h.valPubkeys = tPubKeys
+	h.setValPubkeys(tPubKeys)
 
 	// For keygen, workId is the same as keygenId
 	workId := keygenId
@@ -337,7 +421,7 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 	}
 	sorted := tss.SortPartyIDs(pids)
 
-	h.engine.AddNodes(nodes)
+	engine.AddNodes(nodes)
 
 	var request *types.WorkRequest
 	switch keyType {
@@ -347,7 +431,7 @@ func (h *Heart) Keygen(keygenId string, keyType string, tPubKeys []ctypes.PubKey
 		request = types.NewEdKeygenRequest(workId, sorted, utils.GetThreshold(n))
 	}
 
-	return h.engine.AddRequest(request)
+	return engine.AddRequest(request)
 }
 
 func (h *Heart) getKey(requestType, chain, workdId string) string {
@@ -369,8 +453,9 @@ func validateKeysignRequest(req *htypes.KeysignRequest) error {
 }
 
 func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) error {
-	if h.ready.Load() != true {
-		return ErrDheartNotReady
+	engine, err := h.getReadyEngine()
+	if err != nil {
+		return err
 	}
 
 	if err := validateKeysignRequest(req); err != nil {
@@ -388,7 +473,7 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		pids[i] = node.PartyId
 	}
 
-	h.engine.AddNodes(nodes)
+	engine.AddNodes(nodes)
 
 	// TODO: Find unique workId
 	workId := ""
@@ -442,7 +527,7 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 		return nil
 	}
 
-	if err := h.engine.AddRequest(workRequest); err != nil {
+	if err := engine.AddRequest(workRequest); err != nil {
 		h.removeKeysignRequest(workRequest.WorkId)
 		return err
 	}
-- 
2.43.0


From 693cbe19b26e3e77e0b12a48006e08a2719879de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:13 +0000
Subject: [PATCH 41/53] fix: protect the list of connections against concurrent
 access

---
 p2p/connection_manager.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/p2p/connection_manager.go b/p2p/connection_manager.go
index 5dacc39..8cc79d8 100644
--- a/p2p/connection_manager.go
+++ b/p2p/connection_manager.go
@@ -55,6 +55,7 @@ type DefaultConnectionManager struct {
 	rendezvous       string
 	bootstrapPeers   []maddr.Multiaddr
 	connections      map[peer.ID]*Connection
+	connectionLock   sync.RWMutex
 	listenerLock     sync.RWMutex
 	protocolListener map[protocol.ID]P2PDataListener
 	ready            *atomic.Bool
@@ -222,7 +223,9 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 	for _, peerAddr := range cm.bootstrapPeers {
 		addrInfo, _ := peer.AddrInfoFromP2pAddr(peerAddr)
 		conn := NewConnection(addrInfo.ID, peerAddr, &cm.host)
+		cm.connectionLock.Lock()
 		cm.connections[addrInfo.ID] = conn
+		cm.connectionLock.Unlock()
 	}
 
 	// Attempts to connect to every bootstrapped peers.
@@ -253,7 +256,10 @@ func (cm *DefaultConnectionManager) createConnections(ctx context.Context) {
 }
 
 func (cm *DefaultConnectionManager) WriteToStream(pID peer.ID, protocolId protocol.ID, msg []byte) error {
+	cm.connectionLock.RLock()
 	conn := cm.connections[pID]
+	cm.connectionLock.RUnlock()
+
 	if conn == nil {
 		log.Error("Connection to pid not found, pid = ", pID)
 		return errors.New("pID not found")
-- 
2.43.0


From e3c8fa7070a29766ebe960b5c23791d2e5017f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:21 +0000
Subject: [PATCH 42/53] fix: report an error when there is a result before the
 client is connected

---
 client/client.go | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/client/client.go b/client/client.go
index 13c48d1..8c91182 100644
--- a/client/client.go
+++ b/client/client.go
@@ -3,6 +3,7 @@ package client
 import (
 	"context"
 	"errors"
+	"sync"
 	"time"
 
 	"github.com/ethereum/go-ethereum/rpc"
@@ -28,6 +29,7 @@ type Client interface {
 // A client that connects to Sisu server
 type DefaultClient struct {
 	client *rpc.Client
+	lock   sync.RWMutex
 	url    string
 }
 
@@ -42,9 +44,9 @@ func (c *DefaultClient) TryDial() {
 
 	for {
 		log.Info("Dialing...", c.url)
-		var err error
-		c.client, err = rpc.DialContext(context.Background(), c.url)
+		client, err := rpc.DialContext(context.Background(), c.url)
 		if err == nil {
+			c.setClient(client)
 			if err := c.Ping("dheart"); err == nil {
 				break
 			}
@@ -58,9 +60,33 @@ func (c *DefaultClient) TryDial() {
 	log.Info("Sisu server is connected")
 }
 
+func (c *DefaultClient) setClient(client *rpc.Client) {
+	c.lock.Lock()
+	old := c.client
+	c.client = client
+	c.lock.Unlock()
+
+	if old != nil {
+		old.Close()
+	}
+}
+
+// call makes a rpc call to Sisu server.
+func (c *DefaultClient) call(result interface{}, method string, arg interface{}) error {
+	c.lock.RLock()
+	client := c.client
+	c.lock.RUnlock()
+
+	if client == nil {
+		return ErrSisuServerNotConnected
+	}
+
+	return client.CallContext(context.Background(), result, method, arg)
+}
+
 func (c *DefaultClient) Ping(source string) error {
 	var result interface{}
-	err := c.client.CallContext(context.Background(), &result, "tss_ping", source)
+	err := c.call(&result, "tss_ping", source)
 	if err != nil {
 		log.Error("Cannot ping sisu, err = ", err)
 		return err
@@ -71,7 +97,7 @@ func (c *DefaultClient) Ping(source string) error {
 
 func (c *DefaultClient) PostKeygenResult(result *types.KeygenResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keygenResult", result)
+	err := c.call(&r, "tss_keygenResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keygen result, err = ", err)
@@ -88,7 +114,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 	}
 
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_presignResult", result)
+	err := c.call(&r, "tss_presignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post presign result, err = ", err)
@@ -100,7 +126,7 @@ func (c *DefaultClient) PostPresignResult(result *types.PresignResult) error {
 
 func (c *DefaultClient) PostKeysignResult(result *types.KeysignResult) error {
 	var r interface{}
-	err := c.client.CallContext(context.Background(), &r, "tss_keysignResult", result)
+	err := c.call(&r, "tss_keysignResult", result)
 	if err != nil {
 		// TODO: Retry on failure.
 		log.Error("Cannot post keysign result, err = ", err)
-- 
2.43.0


From 90252dbce29f3b4cb499170bd5a75e4e4d980492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 43/53] fix: do not crash the single node api when signing
 before keygen

---
 server/single_node_api.go | 60 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 53 insertions(+), 7 deletions(-)

diff --git a/server/single_node_api.go b/server/single_node_api.go
index e444eb3..f2b48e4 100644
--- a/server/single_node_api.go
+++ b/server/single_node_api.go
@@ -3,6 +3,7 @@ package server
 import (
 	"crypto/ecdsa"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/decred/dcrd/dcrec/edwards/v2"
@@ -26,6 +27,7 @@ type SingleNodeApi struct {
 
 	ecPrivate *ecdsa.PrivateKey
 	edPrivate *edwards.PrivateKey
+	keyLock   sync.RWMutex
 }
 
 func NewSingleNodeApi(c client.Client) *SingleNodeApi {
@@ -56,6 +58,12 @@ func (api *SingleNodeApi) Version() string {
 func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []types.PubKeyWrapper) error {
 	log.Info("keygen: keyType = ", keyType)
 
+	switch keyType {
+	case libchain.KEY_TYPE_ECDSA, libchain.KEY_TYPE_EDDSA:
+	default:
+		return fmt.Errorf("unsupported key type %s", keyType)
+	}
+
 	// Add some delay to mock TSS gen delay before sending back to Sisu server
 	go func() {
 		time.Sleep(time.Second * 3)
@@ -64,13 +72,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 		var result types.KeygenResult
 		switch keyType {
 		case libchain.KEY_TYPE_ECDSA:
-			var err error
-			api.ecPrivate, err = crypto.GenerateKey()
+			ecPrivate, err := crypto.GenerateKey()
 			if err != nil {
 				panic(err)
 			}
 
-			pubKey := api.ecPrivate.Public()
+			api.keyLock.Lock()
+			api.ecPrivate = ecPrivate
+			api.keyLock.Unlock()
+
+			pubKey := ecPrivate.Public()
 			publicKeyECDSA, _ := pubKey.(*ecdsa.PublicKey)
 			publicKeyBytes := crypto.FromECDSAPub(publicKeyECDSA)
 
@@ -80,8 +91,16 @@ func (api *SingleNodeApi) KeyGen(keygenId string, keyType string, tPubKeys []typ
 				PubKeyBytes: publicKeyBytes,
 			}
 		case libchain.KEY_TYPE_EDDSA:
-			api.edPrivate, _ = edwards.GeneratePrivateKey()
-			pubKeyBytes := api.edPrivate.PubKey().Serialize()
+			edPrivate, err := edwards.GeneratePrivateKey()
+			if err != nil {
+				panic(err)
+			}
+
+			api.keyLock.Lock()
+			api.edPrivate = edPrivate
+			api.keyLock.Unlock()
+
+			pubKeyBytes := edPrivate.PubKey().Serialize()
 
 			result = types.KeygenResult{
 				KeyType:     keyType,
@@ -103,24 +122,51 @@ func (api *SingleNodeApi) getKeygenKey(chain string) []byte {
 }
 
 func (api *SingleNodeApi) keySignEth(chain string, bytesToSign []byte) ([]byte, error) {
+	api.keyLock.RLock()
 	privateKey := api.ecPrivate
+	api.keyLock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("there is no ecdsa key, keygen has not finished")
+	}
+
 	sig, err := crypto.Sign(bytesToSign, privateKey)
 
 	return sig, err
 }
 
 func (api *SingleNodeApi) keySignEddsa(chain string, bytesToSign []byte) ([]byte, error) {
-	sig, err := api.edPrivate.Sign(bytesToSign)
-	return sig.Serialize(), err
+	api.keyLock.RLock()
+	privateKey := api.edPrivate
+	api.keyLock.RUnlock()
+
+	if privateKey == nil {
+		return nil, fmt.Errorf("there is no eddsa key, keygen has not finished")
+	}
+
+	sig, err := privateKey.Sign(bytesToSign)
+	if err != nil {
+		return nil, err
+	}
+
+	return sig.Serialize(), nil
 }
 
 // Signing any transaction
 func (api *SingleNodeApi) KeySign(req *types.KeysignRequest, tPubKeys []types.PubKeyWrapper) error {
+	if req == nil {
+		return fmt.Errorf("keysign request is nil")
+	}
+
 	var err error
 
 	signatures := make([][]byte, len(req.KeysignMessages))
 
 	for i, msg := range req.KeysignMessages {
+		if msg == nil {
+			return fmt.Errorf("message at index %d is nil", i)
+		}
+
 		var signature []byte
 		var err error
 
-- 
2.43.0


From cbebeafb7ff531f1e49f908b5d643a3dde912a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 44/53] fix: ask for the only message of a signing that uses
 presign data

---
 worker/components/message_monitor.go | 12 +++++++++---
 worker/worker_executor.go            |  8 +++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/worker/components/message_monitor.go b/worker/components/message_monitor.go
index 0885614..8f0008b 100644
--- a/worker/components/message_monitor.go
+++ b/worker/components/message_monitor.go
@@ -38,9 +38,15 @@ type DefaultMessageMonitor struct {
 	allMessages      []string // all messages that this node should receive from each peer
 }
 
-func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback MessageMonitorCallback,
-	pIDsMap map[string]*tss.PartyID, timeout time.Duration) MessageMonitor {
+func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, hasPresignData bool,
+	callback MessageMonitorCallback, pIDsMap map[string]*tss.PartyID, timeout time.Duration) MessageMonitor {
 	allMessages := message.GetMessagesByWorkType(jobType)
+	if hasPresignData {
+		// Only the messages of the last round are sent.
+		count := message.GetMessageCountByWorkType(jobType, hasPresignData)
+		allMessages = allMessages[len(allMessages)-count:]
+	}
+
 	receivedMessages := make(map[string][]bool)
 	for pid := range pIDsMap {
 		receivedMessages[pid] = make([]bool, len(allMessages))
@@ -55,7 +61,7 @@ func NewMessageMonitor(mypid *tss.PartyID, jobType wTypes.WorkType, callback Mes
 		callback:         callback,
 		pIDsMap:          pIDsMap,
 		receivedMessages: receivedMessages,
-		allMessages:      message.GetMessagesByWorkType(jobType),
+		allMessages:      allMessages,
 	}
 }
 
diff --git a/worker/worker_executor.go b/worker/worker_executor.go
index c09e2a1..8e5b95e 100644
--- a/worker/worker_executor.go
+++ b/worker/worker_executor.go
@@ -139,7 +139,8 @@ func (w *WorkerExecutor) Init() (err error) {
 		}
 	}
 
-	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w, w.pIDsMap, w.cfg.MonitorMessageTimeout)
+	w.messageMonitor = components.NewMessageMonitor(w.myPid, w.workType, w.hasPresignData(), w, w.pIDsMap,
+		w.cfg.MonitorMessageTimeout)
 	go w.messageMonitor.Start()
 
 	p2pCtx := tss.NewPeerContext(w.pIDs)
@@ -208,6 +209,11 @@ func (w *WorkerExecutor) Init() (err error) {
 	return nil
 }
 
+// hasPresignData returns true if the presign rounds have been done before this work.
+func (w *WorkerExecutor) hasPresignData() bool {
+	return w.workType == wTypes.EcSigning && len(w.ecPresignOutput) > 0 && w.ecPresignOutput[0] != nil
+}
+
 func (w *WorkerExecutor) Run(cachedMsgs []*commonTypes.TssMessage) {
 	if w.isStopped.Load() {
 		return
-- 
2.43.0


From 0f60633aa0e77a9dae328b1715687d3f43379725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 45/53] fix: let a leader use a presign set that other nodes
 have made

---
 worker/prework_selection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index fa733d0..ae77396 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -288,6 +288,8 @@ func (s *PreworkSelection) leaderFinalized(success bool, presignIds []string, se
 		Success:      true,
 		SelectedPids: selectedPids,
 		PresignIds:   presignIds,
+		// The presign set could have been made by other nodes.
+		IsNodeExcluded: helper.GetPidFromString(s.myPid.Id, selectedPids) == nil,
 	})
 }
 
@@ -424,7 +426,8 @@ func (s *PreworkSelection) validateLeaderSelection(msg *common.PreExecOutputMess
 		}
 	}
 
-	return hasLeader
+	// A presign set could have been made without the leader.
+	return hasLeader || len(msg.PresignIds) > 0
 }
 
 func (s *PreworkSelection) broadcastResult(result SelectionResult) {
-- 
2.43.0


From e1265f37a8f291dced78ea6f296f4b63751d4eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 46/53] fix: never use a presign for more than one work on the
 members of a work

---
 core/components/available_presign_manager.go | 35 ++++++++++++++++++++
 core/components/mock.go                      |  9 +++++
 worker/prework_selection.go                  |  6 ++++
 3 files changed, 50 insertions(+)

diff --git a/core/components/available_presign_manager.go b/core/components/available_presign_manager.go
index 895d8d1..05af874 100644
--- a/core/components/available_presign_manager.go
+++ b/core/components/available_presign_manager.go
@@ -16,6 +16,7 @@ import (
 type AvailablePresigns interface {
 	Load() error
 	GetAvailablePresigns(batchSize int, n int, allPids map[string]*tss.PartyID) ([]string, []*tss.PartyID)
+	UsePresigns(presignIds []string) error
 	AddPresign(workId string, partyIds []*tss.PartyID, presignOutputs []*ecsigning.SignatureData_OneRoundData)
 }
 
@@ -98,6 +99,40 @@ func (m *defaultAvailablePresigns) AddPresign(workId string, partyIds []*tss.Par
 	m.lock.Unlock()
 }
 
+// UsePresigns consumes presigns that another node (the leader of a work) has chosen. It returns an
+// error and consumes nothing if any of them is not available (anymore): using a presign for more than
+// one message reveals the private key.
+func (m *defaultAvailablePresigns) UsePresigns(presignIds []string) error {
+	m.lock.Lock()
+
+	used := make(map[string]bool)
+	for _, presignId := range presignIds {
+		used[presignId] = true
+	}
+
+	remaining := make(map[string][]*common.AvailablePresign)
+	count := 0
+	for pidString, apArr := range m.available {
+		for _, ap := range apArr {
+			if used[ap.PresignId] {
+				count++
+			} else {
+				remaining[pidString] = append(remaining[pidString], ap)
+			}
+		}
+	}
+
+	if count != len(presignIds) {
+		m.lock.Unlock()
+		return fmt.Errorf("%d of %d presigns are available", count, len(presignIds))
+	}
+
+	m.available = remaining
+	m.lock.Unlock()
+
+	return m.db.UpdatePresignStatus(presignIds)
+}
+
 // GetAvailablePresigns returns a list of presigns with size batchSize for a list of parties. It
 // immediately consumes the presign set (i.e. the set is longer available.) to avoid dpulicated
 // usage of presign.
diff --git a/core/components/mock.go b/core/components/mock.go
index f63fa20..051491d 100644
--- a/core/components/mock.go
+++ b/core/components/mock.go
@@ -10,6 +10,7 @@ import (
 type MockAvailablePresigns struct {
 	LoadFunc                 func() error
 	GetAvailablePresignsFunc func(batchSize int, n int, allPids map[string]*tss.PartyID) ([]string, []*tss.PartyID)
+	UsePresignsFunc          func(presignIds []string) error
 	AddPresignFunc           func(workId string, partyIds []*tss.PartyID, presignOutputs []*ecsigning.SignatureData_OneRoundData)
 }
 
@@ -33,6 +34,14 @@ func (m *MockAvailablePresigns) GetAvailablePresigns(batchSize int, n int, allPi
 	return nil, nil
 }
 
+func (m *MockAvailablePresigns) UsePresigns(presignIds []string) error {
+	if m.UsePresignsFunc != nil {
+		return m.UsePresignsFunc(presignIds)
+	}
+
+	return nil
+}
+
 func (m *MockAvailablePresigns) AddPresign(workId string, partyIds []*tss.PartyID, presignOutputs []*ecsigning.SignatureData_OneRoundData) {
 	if m.AddPresignFunc != nil {
 		m.AddPresignFunc(workId, partyIds, presignOutputs)
diff --git a/worker/prework_selection.go b/worker/prework_selection.go
index ae77396..e4cc4ba 100644
--- a/worker/prework_selection.go
+++ b/worker/prework_selection.go
@@ -372,6 +372,12 @@ func (s *PreworkSelection) memberFinalized(msg *common.PreExecOutputMessage) {
 						Success: false,
 					})
 					return
+				} else if err := s.presignsManager.UsePresigns(msg.PresignIds); err != nil {
+					log.Error("Cannot use presigns, err = ", err)
+					s.broadcastResult(SelectionResult{
+						Success: false,
+					})
+					return
 				} else {
 					s.broadcastResult(SelectionResult{
 						Success:      true,
-- 
2.43.0


From 2e2d98a6aa1bbe1339deb52402e206f997a80988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:48 +0000
Subject: [PATCH 47/53] fix: refuse a signing request without messages

---
 worker/types/work_request.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index b87f7c9..3896671 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -100,6 +100,11 @@ func (request *WorkRequest) Validate() error {
 	default:
 		return errors.New("Invalid request type")
 	}
+
+	if request.IsSigning() && (request.BatchSize == 0 || len(request.Messages) != request.BatchSize) {
+		return errors.New("Invalid number of messages to sign")
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 25fff6a911fe1dda1c561962b50647665dbb0a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 48/53] fix: report the outcome of a keygen that this node is
 not selected for

---
 core/engine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/engine.go b/core/engine.go
index 0c1d280..7d201a8 100644
--- a/core/engine.go
+++ b/core/engine.go
@@ -492,8 +492,9 @@ func (engine *defaultEngine) OnNodeNotSelected(request *types.WorkRequest) {
 	engine.finishWorker(request.WorkId)
 
 	switch request.WorkType {
-	case types.EcKeygen:
+	case types.EcKeygen, types.EdKeygen:
 		// This should not happen as in keygen all nodes should be selected.
+		engine.callback.OnWorkFailed(request, make([]*tss.PartyID, 0))
 
 	case types.EcSigning, types.EdSigning:
 		result := &htypes.KeysignResult{
-- 
2.43.0


From d6e55e3086bfbb50ace9eddb4d94f3117ffd81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:02 +0000
Subject: [PATCH 49/53] fix: refuse a work request without parties or with a
 negative threshold

---
 worker/types/work_request.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index 3896671..914f065 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -101,6 +101,10 @@ func (request *WorkRequest) Validate() error {
 		return errors.New("Invalid request type")
 	}
 
+	if len(request.AllParties) == 0 || request.Threshold < 0 {
+		return errors.New("Invalid parties or threshold")
+	}
+
 	if request.IsSigning() && (request.BatchSize == 0 || len(request.Messages) != request.BatchSize) {
 		return errors.New("Invalid number of messages to sign")
 	}
-- 
2.43.0


From 07e7fe23aba0af90f4eb5da2edf211be9f51045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:57 +0000
Subject: [PATCH 50/53] fix: a nil update message from the network no longer
 crashes the node

---
 types/common/tss_message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/common/tss_message.go b/types/common/tss_message.go
index f00dab2..1dd0998 100644
--- a/types/common/tss_message.go
+++ b/types/common/tss_message.go
@@ -95,7 +95,7 @@ func (msg *TssMessage) IsBroadcast() bool {
 }
 
 func (msg *TssMessage) GetMessageKey() (string, error) {
-	if len(msg.UpdateMessages) == 0 {
+	if len(msg.UpdateMessages) == 0 || msg.UpdateMessages[0] == nil {
 		err := fmt.Errorf("empty update messages")
 		log.Error(err)
 		return "", err
-- 
2.43.0


From 4e7fd12de6fd20f2b9a5c1166fc1dd2cc99aba41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:52 +0000
Subject: [PATCH 51/53] fix: an ECDSA message above the order of the curve can
 be signed

---
 worker/job.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/worker/job.go b/worker/job.go
index 4667f3e..be8eef7 100644
--- a/worker/job.go
+++ b/worker/job.go
@@ -201,7 +201,9 @@ func hashToInt(hash []byte, c elliptic.Curve) *big.Int {
 	if excess > 0 {
 		ret.Rsh(ret, uint(excess))
 	}
-	return ret
+
+	// The message is used modulo the order of the curve. tss-lib does not accept larger numbers.
+	return ret.Mod(ret, c.Params().N)
 }
 
 func (job *Job) Start() error {
-- 
2.43.0


From fd459fe8109abb62d0783a959d42fb1313c6d362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 52/53] fix: different lists of message ids never give the same
 work id

---
 core/heart.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/heart.go b/core/heart.go
index d77eff4..071c103 100644
--- a/core/heart.go
+++ b/core/heart.go
@@ -482,7 +482,9 @@ func (h *Heart) Keysign(req *htypes.KeysignRequest, tPubKeys []ctypes.PubKey) er
 	for i, msg := range req.KeysignMessages {
 		log.Verbosef("There is a new work for chain %s with hash %s", msg.OutChain, msg.OutHash)
 
-		workId = workId + msg.Id
+		// Hash the id first so that the result does not depend on the ids' lengths. Otherwise an id which
+		// starts with the hash of other ids gives the work id of that longer list.
+		workId = workId + utils.KeccakHash32(msg.Id)
 		workId = utils.KeccakHash32(workId)
 		signMessages[i] = msg.BytesToSign
 		chains[i] = msg.OutChain
-- 
2.43.0


From 54fb6c4525a075b175b545824fdf0cacdd3f5d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:08 +0000
Subject: [PATCH 53/53] fix: refuse a keygen request with an empty batch

---
 worker/types/work_request.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/worker/types/work_request.go b/worker/types/work_request.go
index 914f065..6010e35 100644
--- a/worker/types/work_request.go
+++ b/worker/types/work_request.go
@@ -105,7 +105,11 @@ func (request *WorkRequest) Validate() error {
 		return errors.New("Invalid parties or threshold")
 	}
 
-	if request.IsSigning() && (request.BatchSize == 0 || len(request.Messages) != request.BatchSize) {
+	if request.BatchSize <= 0 {
+		return errors.New("Invalid batch size")
+	}
+
+	if request.IsSigning() && len(request.Messages) != request.BatchSize {
 		return errors.New("Invalid number of messages to sign")
 	}
 
-- 
2.43.0

