From cf3bc9cb479495c101b0f693c1a916cb013f3efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:18 +0000
Subject: [PATCH 01/32] fix: keep leading zero bytes when decoding BCD times

---
 protocol/helpers.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index 2c463f1..c0aa35e 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -90,7 +90,8 @@ func stringToBCD(s string, size ...int) []byte {
 
 // BCD转字符串
 func bcdToString(data []byte, ignorePadding ...bool) string {
-	for {
+	keepPadding := len(ignorePadding) > 0 && ignorePadding[0]
+	for !keepPadding {
 		if len(data) == 0 {
 			return ""
 		}
@@ -106,7 +107,7 @@ func bcdToString(data []byte, ignorePadding ...bool) string {
 		buf = append(buf, data[i]&0x0f+'0')
 	}
 
-	if len(ignorePadding) == 0 || !ignorePadding[0] {
+	if !keepPadding {
 		for idx := range buf {
 			if buf[idx] != '0' {
 				return string(buf[idx:])
@@ -129,7 +130,7 @@ func fromBCDTime(bcd []byte) (time.Time, error) {
 		return time.Time{}, errors.ErrInvalidBCDTime
 	}
 	t, err := time.ParseInLocation(
-		"20060102150405", "20"+bcdToString(bcd), time.Local)
+		"20060102150405", "20"+bcdToString(bcd, true), time.Local)
 	if err != nil {
 		return time.Time{}, err
 	}
-- 
2.43.0


From 6ab9658ecb64d59e27cff8648c1d3c36b514ecf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:18 +0000
Subject: [PATCH 02/32] fix: accept a header whose terminal number is all zeros

---
 protocol/header.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/header.go b/protocol/header.go
index 692d3f4..1b0ba56 100644
--- a/protocol/header.go
+++ b/protocol/header.go
@@ -71,7 +71,7 @@ func (header *Header) Decode(data []byte) error {
 	if err != nil {
 		return errors.ErrInvalidHeader
 	}
-	iccID, err := strconv.ParseUint(bcdToString(temp), 10, 64)
+	iccID, err := strconv.ParseUint(bcdToString(temp, true), 10, 64)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From fa6cf4853188b1a6d5da2e7921dfb47392615f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:18 +0000
Subject: [PATCH 03/32] fix: reject a frame of a single byte instead of
 panicking

---
 protocol/message.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 7743151..336da64 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -71,7 +71,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 		return errors.ErrInvalidMessage
 	}
 	data = data[1 : len(data)-1]
-	if len(data) == 0 {
+	if len(data) < 2 {
 		return errors.ErrInvalidMessage
 	}
 
-- 
2.43.0


From 83dcda2fa8637017056a4bcd60156aae1aeeb9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:18 +0000
Subject: [PATCH 04/32] fix: refuse bodies of 64 KiB and more instead of
 truncating their length

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 336da64..25034fd 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -45,6 +45,9 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 
 	// 编码消息头
 	message.Header.MsgID = message.Body.MsgID()
+	if len(body) > 0x3ff {
+		return nil, errors.ErrBodyTooLong
+	}
 	err = message.Header.Property.SetBodySize(uint16(len(body)))
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d20ae78b0b74dd118e63389089e7df07bc408979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:58 +0000
Subject: [PATCH 05/32] fix: register a request before sending it, so that a
 fast answer finds it

---
 session.go | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/session.go b/session.go
index 0cf29a1..a26ee2c 100644
--- a/session.go
+++ b/session.go
@@ -68,20 +68,24 @@ func (session *Session) SetPublicKey(publicKey *rsa.PublicKey) {
 
 // 发送消息
 func (session *Session) Send(entity protocol.Entity) (uint16, error) {
+	serialNo := session.nextID()
+	if err := session.send(entity, serialNo); err != nil {
+		return 0, err
+	}
+	return serialNo, nil
+}
+
+// 以指定流水号发送消息
+func (session *Session) send(entity protocol.Entity, serialNo uint16) error {
 	message := protocol.Message{
 		Body: entity,
 		Header: protocol.Header{
 			MsgID:       entity.MsgID(),
 			IccID:       atomic.LoadUint64(&session.iccID),
-			MsgSerialNo: session.nextID(),
+			MsgSerialNo: serialNo,
 		},
 	}
-
-	err := session.session.Send(message)
-	if err != nil {
-		return 0, err
-	}
-	return message.Header.MsgSerialNo, nil
+	return session.session.Send(message)
 }
 
 // 回复消息
@@ -96,11 +100,8 @@ func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (ui
 
 // 发起请求
 func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
-	serialNo, err := session.Send(entity)
-	if err != nil {
-		return 0, err
-	}
-
+	// 先登记再发送，避免应答先于登记到达
+	serialNo := session.nextID()
 	if cb != nil {
 		session.addRequestContext(requestContext{
 			msgID:    uint16(entity.MsgID()),
@@ -108,6 +109,11 @@ func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol
 			callback: cb,
 		})
 	}
+
+	if err := session.send(entity, serialNo); err != nil {
+		session.takeRequestContext(serialNo)
+		return 0, err
+	}
 	return serialNo, nil
 }
 
-- 
2.43.0


From b2d1314088ca38760193d55648831a95b3aa6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:58 +0000
Subject: [PATCH 06/32] fix: clean up a session that is closed before its close
 callback is registered

---
 session_handler.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/session_handler.go b/session_handler.go
index 9161c84..7200272 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -8,6 +8,7 @@ import (
 	"io/ioutil"
 	"reflect"
 	"strconv"
+	"sync"
 )
 
 // Session处理
@@ -27,9 +28,15 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 	handler.server.sessions[sess.ID()] = session
 	handler.server.mutex.Unlock()
 	handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
-	sess.AddCloseCallback(nil, nil, func() {
-		handler.server.handleClose(session)
-	})
+	// 会话可能在注册回调之前已关闭，退出时再次确保清理且仅清理一次
+	var once sync.Once
+	cleanup := func() {
+		once.Do(func() {
+			handler.server.handleClose(session)
+		})
+	}
+	defer cleanup()
+	sess.AddCloseCallback(nil, nil, cleanup)
 
 	for {
 		// 接收消息
-- 
2.43.0


From c2a61b9118f7b7e7e5bc33576de360ad3442dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:58 +0000
Subject: [PATCH 07/32] fix: make the update of a countdown atomic

---
 timer.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/timer.go b/timer.go
index b815b81..f27a592 100644
--- a/timer.go
+++ b/timer.go
@@ -85,14 +85,19 @@ func NewCountdownTimer(seconds int64, callback func(string)) *CountdownTimer {
 
 // 更新时间
 func (timer *CountdownTimer) Update(key string) {
+	timer.mutex.Lock()
+	defer timer.mutex.Unlock()
+
+	expire := time.Now().Unix() + atomic.LoadInt64(&timer.seconds)
+	if item, ok := timer.mapper[key]; ok {
+		timer.q.Update(item, expire)
+		return
+	}
+
 	e := element{
 		Key:    key,
-		Expire: time.Now().Unix() + atomic.LoadInt64(&timer.seconds),
+		Expire: expire,
 	}
-	timer.Remove(key)
-
-	timer.mutex.Lock()
-	defer timer.mutex.Unlock()
 	heap.Push(timer.q, &e)
 	timer.mapper[key] = &e
 }
-- 
2.43.0


From 5e41e7cadffc5855602f94d275bbeceb54061e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:58 +0000
Subject: [PATCH 08/32] fix: count down on the monotonic clock, so that setting
 the system time expires nothing

---
 timer.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/timer.go b/timer.go
index f27a592..e72a7dc 100644
--- a/timer.go
+++ b/timer.go
@@ -64,6 +64,7 @@ func (q *expirationQueue) Remove(item *element) {
 // 倒计时器
 type CountdownTimer struct {
 	seconds  int64
+	start    time.Time
 	mutex    sync.Mutex
 	q        *expirationQueue
 	mapper   map[string]*element
@@ -77,18 +78,24 @@ func NewCountdownTimer(seconds int64, callback func(string)) *CountdownTimer {
 		q:        &q,
 		callback: callback,
 		seconds:  seconds,
+		start:    time.Now(),
 		mapper:   make(map[string]*element),
 	}
 	go timer.checkExpirationQueue()
 	return &timer
 }
 
+// 单调时钟秒数，不受系统时间调整影响
+func (timer *CountdownTimer) now() int64 {
+	return int64(time.Since(timer.start) / time.Second)
+}
+
 // 更新时间
 func (timer *CountdownTimer) Update(key string) {
 	timer.mutex.Lock()
 	defer timer.mutex.Unlock()
 
-	expire := time.Now().Unix() + atomic.LoadInt64(&timer.seconds)
+	expire := timer.now() + atomic.LoadInt64(&timer.seconds)
 	if item, ok := timer.mapper[key]; ok {
 		timer.q.Update(item, expire)
 		return
@@ -129,7 +136,7 @@ func (timer *CountdownTimer) checkExpirationQueue() {
 	for {
 		select {
 		case <-t.C:
-			now := time.Now().Unix()
+			now := timer.now()
 			keys := make([]string, 0)
 
 			timer.mutex.Lock()
-- 
2.43.0


From d6f26a59df53929116a1e35b168efb5412b44b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:58 +0000
Subject: [PATCH 09/32] fix: every received message keeps the connection alive,
 not only those with a handler

---
 server.go          | 1 -
 session_handler.go | 1 +
 2 files changed, 1 insertion(+), 1 deletion(-)

diff --git a/server.go b/server.go
index c2d58eb..dc52f9a 100644
--- a/server.go
+++ b/server.go
@@ -187,6 +187,5 @@ func (server *Server) dispatchMessage(session *Session, message *protocol.Messag
 			debug.PrintStack()
 		}
 	}()
-	server.timer.Update(strconv.FormatUint(session.ID(), 10))
 	handler.(MessageHandler)(session, message)
 }
diff --git a/session_handler.go b/session_handler.go
index 7200272..8004550 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -45,6 +45,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			sess.Close()
 			break
 		}
+		handler.server.timer.Update(strconv.FormatUint(session.ID(), 10))
 
 		// 分发消息
 		message := msg.(protocol.Message)
-- 
2.43.0


From 667a429940bdc33912641cfd497d7804fbcfbc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:58 +0000
Subject: [PATCH 10/32] fix: synchronise Run and Stop

---
 server.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/server.go b/server.go
index dc52f9a..733d5ad 100644
--- a/server.go
+++ b/server.go
@@ -60,29 +60,39 @@ func NewServer(options Options) (*Server, error) {
 
 // 运行服务
 func (server *Server) Run(network string, port int) error {
+	server.mutex.Lock()
 	if server.server != nil {
+		server.mutex.Unlock()
 		return errors.New("server already running")
 	}
 
 	address := fmt.Sprintf("0.0.0.0:%d", port)
 	listen, err := net.Listen(network, address)
 	if err != nil {
+		server.mutex.Unlock()
 		return err
 	}
 
 	p := Protocol{
 		privateKey: server.privateKey,
 	}
-	server.server = link.NewServer(listen, &p, 24, server.handler)
+	running := link.NewServer(listen, &p, 24, server.handler)
+	server.server = running
+	server.mutex.Unlock()
+
 	log.Infof("[JT/T 808] protocol server started on %s", address)
-	return server.server.Serve()
+	return running.Serve()
 }
 
 // 停止服务
 func (server *Server) Stop() {
-	if server.server != nil {
-		server.server.Stop()
-		server.server = nil
+	server.mutex.Lock()
+	running := server.server
+	server.server = nil
+	server.mutex.Unlock()
+
+	if running != nil {
+		running.Stop()
 	}
 }
 
-- 
2.43.0


From 28d6699fafe77e219fa6426e0466ec2e330a664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:58 +0000
Subject: [PATCH 11/32] fix: guard the public key of a connection, set by
 handlers and read by the sender

---
 protocol.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/protocol.go b/protocol.go
index 27305fb..447bf93 100644
--- a/protocol.go
+++ b/protocol.go
@@ -10,6 +10,7 @@ import (
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
 	"io"
+	"sync"
 )
 
 type Protocol struct {
@@ -33,6 +34,7 @@ type ProtocolCodec struct {
 	w               io.Writer
 	r               io.Reader
 	closer          io.Closer
+	mutex           sync.RWMutex
 	publicKey       *rsa.PublicKey
 	privateKey      *rsa.PrivateKey
 	bufferReceiving *bytes.Buffer
@@ -40,11 +42,15 @@ type ProtocolCodec struct {
 
 // 获取RSA公钥
 func (codec *ProtocolCodec) GetPublicKey() *rsa.PublicKey {
+	codec.mutex.RLock()
+	defer codec.mutex.RUnlock()
 	return codec.publicKey
 }
 
 // 设置RSA公钥
 func (codec *ProtocolCodec) SetPublicKey(publicKey *rsa.PublicKey) {
+	codec.mutex.Lock()
+	defer codec.mutex.Unlock()
 	codec.publicKey = publicKey
 }
 
@@ -68,10 +74,11 @@ func (codec *ProtocolCodec) Send(msg interface{}) error {
 
 	var err error
 	var data []byte
-	if codec.publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
+	publicKey := codec.GetPublicKey()
+	if publicKey == nil || !message.Header.Property.IsEnableEncrypt() {
 		data, err = message.Encode()
 	} else {
-		data, err = message.Encode(codec.publicKey)
+		data, err = message.Encode(publicKey)
 	}
 	if err != nil {
 		log.WithFields(log.Fields{
-- 
2.43.0


From 4d7a9e305492b8c5d18fbd228f34e2fcff9806a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:46 +0000
Subject: [PATCH 12/32] fix: create the packet directory searchable, so that
 parts can be written without being root

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 654713a..b73e936 100644
--- a/multipart.go
+++ b/multipart.go
@@ -96,7 +96,7 @@ func (m MultipartFile) rootDir() string {
 // 写入分包文件
 func (m MultipartFile) Write(seq uint16, data []byte) error {
 	dir := m.rootDir()
-	if err := os.MkdirAll(dir, 0644); err != nil {
+	if err := os.MkdirAll(dir, 0755); err != nil {
 		return err
 	}
 	sep := filepath.Separator
-- 
2.43.0


From f236334ed66c4c9425d53e111154423d822ec22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:46 +0000
Subject: [PATCH 13/32] fix: handle errors while looking for packet parts
 instead of dereferencing a nil file info

---
 multipart.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/multipart.go b/multipart.go
index b73e936..26eae50 100644
--- a/multipart.go
+++ b/multipart.go
@@ -40,11 +40,11 @@ func (m MultipartFile) IsFull() bool {
 		set[uint16(i)] = struct{}{}
 	}
 
-	m.walkParts(func(path string, seq uint16) error {
+	err := m.walkParts(func(path string, seq uint16) error {
 		delete(set, seq)
 		return nil
 	})
-	return len(set) == 0
+	return err == nil && len(set) == 0
 }
 
 // 合并文件
@@ -109,6 +109,14 @@ func (m MultipartFile) walkParts(walkFn func(path string, seq uint16) error) err
 	dir := m.rootDir()
 	id := strconv.Itoa(int(m.MsgID))
 	return filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			// 文件可能在遍历期间被移除
+			if os.IsNotExist(err) {
+				return nil
+			}
+			return err
+		}
+
 		if info.IsDir() {
 			return nil
 		}
-- 
2.43.0


From 988ea067d9af35f02ae92168ffce828a22704970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:46 +0000
Subject: [PATCH 14/32] fix: write packet parts atomically, so that a failed or
 interrupted write leaves no partial part

---
 multipart.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 26eae50..869d48c 100644
--- a/multipart.go
+++ b/multipart.go
@@ -101,7 +101,22 @@ func (m MultipartFile) Write(seq uint16, data []byte) error {
 	}
 	sep := filepath.Separator
 	name := fmt.Sprintf("%s%c%d-%d-%d.part", dir, sep, m.MsgID, m.Tag, seq)
-	return ioutil.WriteFile(name, data, 0644)
+	// 先写入临时文件再改名，避免留下不完整的分包
+	f, err := ioutil.TempFile(dir, "part-")
+	if err != nil {
+		return err
+	}
+	_, err = f.Write(data)
+	if e := f.Close(); err == nil {
+		err = e
+	}
+	if err == nil {
+		err = os.Rename(f.Name(), name)
+	}
+	if err != nil {
+		os.Remove(f.Name())
+	}
+	return err
 }
 
 // 遍历分包文件
-- 
2.43.0


From f2b5472cb5c3130790a617a7ee35415716f8f7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:48 +0000
Subject: [PATCH 15/32] fix: merge exactly the parts of the message, each merge
 into its own file

---
 multipart.go | 74 +++++++++++++++++++++++++++-------------------------
 1 file changed, 38 insertions(+), 36 deletions(-)

diff --git a/multipart.go b/multipart.go
index 869d48c..24b0162 100644
--- a/multipart.go
+++ b/multipart.go
@@ -7,24 +7,10 @@ import (
 	"io/ioutil"
 	"os"
 	"path/filepath"
-	"sort"
 	"strconv"
 	"strings"
 )
 
-// 分包文件
-type partFile struct {
-	f    *os.File
-	seq  uint16
-	path string
-}
-
-type partFileSlice []partFile
-
-func (p partFileSlice) Len() int           { return len(p) }
-func (p partFileSlice) Less(i, j int) bool { return p[i].seq < p[j].seq }
-func (p partFileSlice) Swap(i, j int)      { p[i], p[j] = p[j], p[i] }
-
 // 多分包文件
 type MultipartFile struct {
 	IccID uint64
@@ -49,41 +35,57 @@ func (m MultipartFile) IsFull() bool {
 
 // 合并文件
 func (m MultipartFile) Merge() (io.ReadCloser, error) {
-	inputs := make(partFileSlice, 0)
+	paths := make(map[uint16]string)
 	err := m.walkParts(func(path string, seq uint16) error {
-		f, err := os.OpenFile(path, os.O_RDONLY, 0644)
-		if err != nil {
-			return err
-		}
-		inputs = append(inputs, partFile{f: f, seq: seq, path: path})
+		paths[seq] = path
 		return nil
 	})
-
-	defer func() {
-		for _, item := range inputs {
-			item.f.Close()
-		}
-	}()
-
 	if err != nil {
 		return nil, err
 	}
 
-	sep := filepath.Separator
-	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
-	w, err := os.OpenFile(full, os.O_WRONLY|os.O_CREATE, 0644)
+	// 每次合并使用各自的文件，完成后再改名
+	w, err := ioutil.TempFile(m.rootDir(), "full-")
 	if err != nil {
 		return nil, err
 	}
-	defer w.Close()
+	if err = m.merge(w, paths); err != nil {
+		w.Close()
+		os.Remove(w.Name())
+		return nil, err
+	}
+	return w, nil
+}
 
-	sort.Sort(inputs)
-	for _, part := range inputs {
-		if _, err = io.Copy(w, part.f); err != nil {
-			return nil, err
+// 按序合并分包
+func (m MultipartFile) merge(w *os.File, paths map[uint16]string) error {
+	for seq := 1; seq <= int(m.Sum); seq++ {
+		path, ok := paths[uint16(seq)]
+		if !ok {
+			return fmt.Errorf("part %d is missing", seq)
+		}
+		if err := appendFile(w, path); err != nil {
+			return err
 		}
 	}
-	return os.OpenFile(full, os.O_RDONLY, 0644)
+	if _, err := w.Seek(0, io.SeekStart); err != nil {
+		return err
+	}
+
+	sep := filepath.Separator
+	full := fmt.Sprintf("%s%c%d-%d.full", m.rootDir(), sep, m.MsgID, m.Tag)
+	return os.Rename(w.Name(), full)
+}
+
+// 追加文件内容
+func appendFile(w io.Writer, path string) error {
+	f, err := os.OpenFile(path, os.O_RDONLY, 0644)
+	if err != nil {
+		return err
+	}
+	defer f.Close()
+	_, err = io.Copy(w, f)
+	return err
 }
 
 // 获取根目录
-- 
2.43.0


From 184158d3f07ebffeb603be086cf46a4747388b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:48 +0000
Subject: [PATCH 16/32] fix: acknowledge the last packet as failed when the
 message is incomplete or cannot be merged

---
 session_handler.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/session_handler.go b/session_handler.go
index 8004550..0dca6bb 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -98,8 +98,14 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			continue
 		}
 
-		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
-		if message.Header.Packet.Seq != message.Header.Packet.Sum || !multipartFile.IsFull() {
+		if message.Header.Packet.Seq != message.Header.Packet.Sum {
+			session.Reply(&message, protocol.T808_0x8001ResultSuccess)
+			continue
+		}
+
+		// 最后一包仅在消息完整且合并成功后应答成功
+		if !multipartFile.IsFull() {
+			session.Reply(&message, protocol.T808_0x8001ResultFail)
 			continue
 		}
 
@@ -110,8 +116,10 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 				"msgid":  fmt.Sprintf("0x%x", message.Header.MsgID),
 				"reason": err,
 			}).Warn("[JT/T 808] failed to merge packet file parts")
+			session.Reply(&message, protocol.T808_0x8001ResultFail)
 			continue
 		}
+		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
 
 		// 分发分包消息
 		entityPacket.SetReader(reader)
-- 
2.43.0


From e5218eebd2072fc008ce4739e35e83d5f0801f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:59 +0000
Subject: [PATCH 17/32] fix: encode a message when it is sent, not when the
 sender goroutine gets to it

---
 session.go | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/session.go b/session.go
index a26ee2c..3c82587 100644
--- a/session.go
+++ b/session.go
@@ -2,9 +2,11 @@ package go808
 
 import (
 	"crypto/rsa"
+	"gitee.com/coco/go808/errors"
 	"gitee.com/coco/go808/protocol"
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
+	"reflect"
 	"runtime/debug"
 	"sync"
 	"sync/atomic"
@@ -17,6 +19,40 @@ type requestContext struct {
 	callback func(answer *protocol.Message)
 }
 
+// 已编码的消息体
+type encodedBody struct {
+	id   protocol.MsgID
+	data []byte
+}
+
+func (body *encodedBody) MsgID() protocol.MsgID {
+	return body.id
+}
+
+func (body *encodedBody) Encode() ([]byte, error) {
+	return body.data, nil
+}
+
+func (body *encodedBody) Decode(data []byte) (int, error) {
+	body.data = data
+	return len(data), nil
+}
+
+// 立即编码消息体，发送协程不再访问调用者的实体
+func encodeBody(entity protocol.Entity) (protocol.Entity, error) {
+	if reflect.ValueOf(entity).IsNil() {
+		return entity, nil
+	}
+	data, err := entity.Encode()
+	if err != nil {
+		return nil, err
+	}
+	if len(data) > 0x3ff {
+		return nil, errors.ErrBodyTooLong
+	}
+	return &encodedBody{id: entity.MsgID(), data: append([]byte(nil), data...)}, nil
+}
+
 // 终端会话
 type Session struct {
 	next    uint32
@@ -68,6 +104,11 @@ func (session *Session) SetPublicKey(publicKey *rsa.PublicKey) {
 
 // 发送消息
 func (session *Session) Send(entity protocol.Entity) (uint16, error) {
+	entity, err := encodeBody(entity)
+	if err != nil {
+		return 0, err
+	}
+
 	serialNo := session.nextID()
 	if err := session.send(entity, serialNo); err != nil {
 		return 0, err
@@ -100,6 +141,11 @@ func (session *Session) Reply(msg *protocol.Message, result protocol.Result) (ui
 
 // 发起请求
 func (session *Session) Request(entity protocol.Entity, cb func(answer *protocol.Message)) (uint16, error) {
+	entity, err := encodeBody(entity)
+	if err != nil {
+		return 0, err
+	}
+
 	// 先登记再发送，避免应答先于登记到达
 	serialNo := session.nextID()
 	if cb != nil {
-- 
2.43.0


From 3aa36694407b5155f2f629f4663d94f74426693e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:00 +0000
Subject: [PATCH 18/32] fix: an answer never reaches a stale request whose
 serial number was reused

---
 session.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/session.go b/session.go
index 3c82587..3b38058 100644
--- a/session.go
+++ b/session.go
@@ -247,13 +247,14 @@ func (session *Session) addRequestContext(ctx requestContext) {
 	session.mux.Lock()
 	defer session.mux.Unlock()
 
-	for idx, item := range session.requests {
-		if item.msgID == ctx.msgID {
-			session.requests[idx] = ctx
-			return
+	// 流水号循环使用，同时移除流水号相同的过期请求
+	requests := session.requests[:0]
+	for _, item := range session.requests {
+		if item.msgID != ctx.msgID && item.serialNo != ctx.serialNo {
+			requests = append(requests, item)
 		}
 	}
-	session.requests = append(session.requests, ctx)
+	session.requests = append(requests, ctx)
 }
 
 // 取出请求上下文
-- 
2.43.0


From 0ad7055f0d31e50b3525a5b24527b17b92445049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:22 +0000
Subject: [PATCH 19/32] fix: refuse a compressed report that cannot be
 decompressed instead of delivering a part of it

---
 protocol/t808_0x0901.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/t808_0x0901.go b/protocol/t808_0x0901.go
index 81dd7e6..4648008 100644
--- a/protocol/t808_0x0901.go
+++ b/protocol/t808_0x0901.go
@@ -63,7 +63,7 @@ func (entity *T808_0x0901) Decode(data []byte) (int, error) {
 	for {
 		n, err := gzipReader.Read(temp[:])
 		if err != nil && err != io.EOF {
-			break
+			return 0, err
 		}
 
 		if n > 0 {
-- 
2.43.0


From 35cdceee771da7b07d46fb06f92b48aa9b991228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:56 +0000
Subject: [PATCH 20/32] fix: reject a frame that ends in a dangling escape byte

---
 protocol/message.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protocol/message.go b/protocol/message.go
index 25034fd..e7e4a63 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -81,6 +81,9 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	// 获取校验和
 	sum := data[len(data)-1]
 	if data[len(data)-2] != EscapeByte {
+		if sum == EscapeByte {
+			return errors.ErrInvalidMessage
+		}
 		data = data[:len(data)-1]
 	} else {
 		if (data[len(data)-1]) == EscapeByteSufix1 {
-- 
2.43.0


From 5bdb3d261b98046455f51ff0418a88b95a4862e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:54 +0000
Subject: [PATCH 21/32] fix: a second Stop waits until the first has stopped
 the server

---
 server.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/server.go b/server.go
index 733d5ad..f16d6bd 100644
--- a/server.go
+++ b/server.go
@@ -88,12 +88,18 @@ func (server *Server) Run(network string, port int) error {
 func (server *Server) Stop() {
 	server.mutex.Lock()
 	running := server.server
-	server.server = nil
 	server.mutex.Unlock()
+	if running == nil {
+		return
+	}
 
-	if running != nil {
-		running.Stop()
+	// 同时停止时，每个调用都等到停止完成
+	running.Stop()
+	server.mutex.Lock()
+	if server.server == running {
+		server.server = nil
 	}
+	server.mutex.Unlock()
 }
 
 // 获取Session
-- 
2.43.0


From 1fed7c603e0e85465910dcd94b2cdcd49b63b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:15 +0000
Subject: [PATCH 22/32] fix: refuse messages with a part that does not fit its
 length byte

---
 protocol/bufio.go       | 10 ++++++++++
 protocol/t808_0x0104.go |  8 ++++++--
 protocol/t808_0x0107.go |  8 ++++++--
 protocol/t808_0x0200.go |  3 +++
 protocol/t808_0x0702.go |  8 ++++++--
 protocol/t808_0x8003.go |  4 +++-
 protocol/t808_0x8103.go |  8 ++++++--
 protocol/t808_0x8108.go |  4 +++-
 protocol/t808_0x8301.go |  8 ++++++--
 protocol/t808_0x8302.go |  8 ++++++--
 protocol/t808_0x8303.go |  4 +++-
 protocol/t808_0x8401.go | 12 +++++++++---
 protocol/t808_0x8800.go |  4 +++-
 13 files changed, 70 insertions(+), 19 deletions(-)

diff --git a/protocol/bufio.go b/protocol/bufio.go
index 8c93161..700400c 100644
--- a/protocol/bufio.go
+++ b/protocol/bufio.go
@@ -3,6 +3,7 @@ package protocol
 import (
 	"bytes"
 	"encoding/binary"
+	"gitee.com/coco/go808/errors"
 	"golang.org/x/text/encoding/simplifiedchinese"
 	"golang.org/x/text/transform"
 	"io"
@@ -45,6 +46,15 @@ func (writer *Writer) WriteByte(b byte) *Writer {
 	return writer
 }
 
+// 写入单字节长度，超出范围则返回错误
+func (writer *Writer) writeByteLen(n int) error {
+	if n > 0xff {
+		return errors.ErrBodyTooLong
+	}
+	writer.WriteByte(byte(n))
+	return nil
+}
+
 func (writer *Writer) WriteUint16(n uint16) *Writer {
 	var buf [2]byte
 	binary.BigEndian.PutUint16(buf[:], n)
diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index edad69e..e15037e 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -19,7 +19,9 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 	writer.WriteUint16(entity.ReplyMsgSerialNo)
 
 	// 写入参数个数
-	writer.WriteByte(byte(len(entity.Params)))
+	if err := writer.writeByteLen(len(entity.Params)); err != nil {
+		return nil, err
+	}
 
 	// 写入参数列表
 	for _, param := range entity.Params {
@@ -27,7 +29,9 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
-		writer.WriteByte(byte(len(param.serialized)))
+		if err := writer.writeByteLen(len(param.serialized)); err != nil {
+			return nil, err
+		}
 
 		// 写入参数数据
 		writer.Write(param.serialized)
diff --git a/protocol/t808_0x0107.go b/protocol/t808_0x0107.go
index 93a1e0d..565866f 100644
--- a/protocol/t808_0x0107.go
+++ b/protocol/t808_0x0107.go
@@ -52,12 +52,16 @@ func (entity *T808_0x0107) Encode() ([]byte, error) {
 
 	// 写入终端硬件版本
 	hardwareVersion := []byte(entity.HardwareVersion)
-	writer.WriteByte(byte(len(hardwareVersion)))
+	if err := writer.writeByteLen(len(hardwareVersion)); err != nil {
+		return nil, err
+	}
 	writer.Write(hardwareVersion)
 
 	// 写入终端固件版本号
 	softwareVersion := []byte(entity.SoftwareVersion)
-	writer.WriteByte(byte(len(softwareVersion)))
+	if err := writer.writeByteLen(len(softwareVersion)); err != nil {
+		return nil, err
+	}
 	writer.Write(softwareVersion)
 
 	// 写入GNSS模块属性
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 0b8d433..9fd3ca9 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -146,6 +146,9 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 			continue
 		}
 		data := ext.Data()
+		if len(data) > 0xff {
+			return nil, errors.ErrBodyTooLong
+		}
 		full := make([]byte, len(data)+2)
 		full[0], full[1] = ext.ID(), byte(len(data))
 		copy(full[2:], data)
diff --git a/protocol/t808_0x0702.go b/protocol/t808_0x0702.go
index 2c0de10..cfbfa17 100644
--- a/protocol/t808_0x0702.go
+++ b/protocol/t808_0x0702.go
@@ -57,7 +57,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	writer.WriteByte(byte(len(driverName)))
+	if err := writer.writeByteLen(len(driverName)); err != nil {
+		return nil, err
+	}
 	writer.Write(driverName)
 
 	// 写入从业资格编码
@@ -76,7 +78,9 @@ func (entity *T808_0x0702) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	writer.WriteByte(byte(len(companyName)))
+	if err := writer.writeByteLen(len(companyName)); err != nil {
+		return nil, err
+	}
 	writer.Write(companyName)
 
 	// 写入证件有效期
diff --git a/protocol/t808_0x8003.go b/protocol/t808_0x8003.go
index 0255a2a..559291d 100644
--- a/protocol/t808_0x8003.go
+++ b/protocol/t808_0x8003.go
@@ -19,7 +19,9 @@ func (entity *T808_0x8003) Encode() ([]byte, error) {
 	writer.WriteUint16(entity.MsgSerialNo)
 
 	// 写入重传包总数
-	writer.WriteByte(byte(len(entity.PacketIDs)))
+	if err := writer.writeByteLen(len(entity.PacketIDs)); err != nil {
+		return nil, err
+	}
 
 	// 写入重传包 ID 列表
 	for _, id := range entity.PacketIDs {
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index 308671c..45d1983 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -14,7 +14,9 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 	writer := NewWriter()
 
 	// 写入参数数量
-	writer.WriteByte(byte(len(entity.Params)))
+	if err := writer.writeByteLen(len(entity.Params)); err != nil {
+		return nil, err
+	}
 
 	// 写入参数列表
 	for _, param := range entity.Params {
@@ -22,7 +24,9 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 		writer.WriteUint32(param.id)
 
 		// 写入参数长度
-		writer.WriteByte(byte(len(param.serialized)))
+		if err := writer.writeByteLen(len(param.serialized)); err != nil {
+			return nil, err
+		}
 
 		// 写入参数数据
 		writer.Write(param.serialized)
diff --git a/protocol/t808_0x8108.go b/protocol/t808_0x8108.go
index 0c0a489..f2f73ef 100644
--- a/protocol/t808_0x8108.go
+++ b/protocol/t808_0x8108.go
@@ -44,7 +44,9 @@ func (entity *T808_0x8108) Encode() ([]byte, error) {
 	}
 
 	// 写入版本长度
-	writer.WriteByte(byte(len(version)))
+	if err := writer.writeByteLen(len(version)); err != nil {
+		return nil, err
+	}
 
 	// 写入版本信息
 	writer.Write(version)
diff --git a/protocol/t808_0x8301.go b/protocol/t808_0x8301.go
index db45e19..d7d674b 100644
--- a/protocol/t808_0x8301.go
+++ b/protocol/t808_0x8301.go
@@ -34,7 +34,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 	writer.WriteByte(entity.Type)
 
 	// 写入事件数量
-	writer.WriteByte(byte(len(entity.Events)))
+	if err := writer.writeByteLen(len(entity.Events)); err != nil {
+		return nil, err
+	}
 
 	// 写入事件列表
 	for _, event := range entity.Events {
@@ -48,7 +50,9 @@ func (entity *T808_0x8301) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		writer.WriteByte(byte(len(content)))
+		if err := writer.writeByteLen(len(content)); err != nil {
+			return nil, err
+		}
 
 		// 写入事件内容
 		writer.Write(content)
diff --git a/protocol/t808_0x8302.go b/protocol/t808_0x8302.go
index ed47e2a..66126eb 100644
--- a/protocol/t808_0x8302.go
+++ b/protocol/t808_0x8302.go
@@ -42,7 +42,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
-	writer.WriteByte(byte(len(question)))
+	if err := writer.writeByteLen(len(question)); err != nil {
+		return nil, err
+	}
 
 	// 写入问题内容
 	writer.Write(question)
@@ -59,7 +61,9 @@ func (entity *T808_0x8302) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		writer.WriteByte(byte(len(content)))
+		if err := writer.writeByteLen(len(content)); err != nil {
+			return nil, err
+		}
 
 		// 写入答案内容
 		writer.Write(content)
diff --git a/protocol/t808_0x8303.go b/protocol/t808_0x8303.go
index b378e50..e01c75f 100644
--- a/protocol/t808_0x8303.go
+++ b/protocol/t808_0x8303.go
@@ -46,7 +46,9 @@ func (entity *T808_0x8303) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入信息项总数
-	writer.WriteByte(byte(len(entity.Items)))
+	if err := writer.writeByteLen(len(entity.Items)); err != nil {
+		return nil, err
+	}
 
 	// 写入信息项列表
 	for _, item := range entity.Items {
diff --git a/protocol/t808_0x8401.go b/protocol/t808_0x8401.go
index a1f72b9..c7e3ddb 100644
--- a/protocol/t808_0x8401.go
+++ b/protocol/t808_0x8401.go
@@ -62,7 +62,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 	writer.WriteByte(byte(entity.Type))
 
 	// 写入联系人总数
-	writer.WriteByte(byte(len(entity.Contacts)))
+	if err := writer.writeByteLen(len(entity.Contacts)); err != nil {
+		return nil, err
+	}
 
 	// 写入联系人列表
 	for _, contact := range entity.Contacts {
@@ -76,7 +78,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		writer.WriteByte(byte(len(number)))
+		if err := writer.writeByteLen(len(number)); err != nil {
+			return nil, err
+		}
 
 		// 写入电话号码
 		writer.Write(number)
@@ -88,7 +92,9 @@ func (entity *T808_0x8401) Encode() ([]byte, error) {
 		if err != nil {
 			return nil, err
 		}
-		writer.WriteByte(byte(len(contact)))
+		if err := writer.writeByteLen(len(contact)); err != nil {
+			return nil, err
+		}
 
 		// 写入联系人
 		writer.Write(contact)
diff --git a/protocol/t808_0x8800.go b/protocol/t808_0x8800.go
index 6a5f5de..976bcff 100644
--- a/protocol/t808_0x8800.go
+++ b/protocol/t808_0x8800.go
@@ -23,7 +23,9 @@ func (entity *T808_0x8800) Encode() ([]byte, error) {
 	}
 
 	// 写入重传消息数
-	writer.WriteByte(byte(len(entity.RetryIDs)))
+	if err := writer.writeByteLen(len(entity.RetryIDs)); err != nil {
+		return nil, err
+	}
 
 	// 写入重传消息ID
 	for _, id := range entity.RetryIDs {
-- 
2.43.0


From 57a5f20478be581c644be7daba953bb2f410b0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:16 +0000
Subject: [PATCH 23/32] fix: accept messages whose list is empty

---
 protocol/t808_0x0104.go | 2 +-
 protocol/t808_0x8103.go | 2 +-
 protocol/t808_0x8600.go | 2 +-
 protocol/t808_0x8602.go | 2 +-
 protocol/t808_0x8604.go | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0104.go b/protocol/t808_0x0104.go
index e15037e..2796516 100644
--- a/protocol/t808_0x0104.go
+++ b/protocol/t808_0x0104.go
@@ -40,7 +40,7 @@ func (entity *T808_0x0104) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x0104) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 3 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8103.go b/protocol/t808_0x8103.go
index 45d1983..1d7e023 100644
--- a/protocol/t808_0x8103.go
+++ b/protocol/t808_0x8103.go
@@ -35,7 +35,7 @@ func (entity *T808_0x8103) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8103) Decode(data []byte) (int, error) {
-	if len(data) <= 3 {
+	if len(data) < 1 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index dbe09e3..9f460b6 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -148,7 +148,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8600) Decode(data []byte) (int, error) {
-	if len(data) < 20 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8602.go b/protocol/t808_0x8602.go
index 9a6daa5..9a0bd30 100644
--- a/protocol/t808_0x8602.go
+++ b/protocol/t808_0x8602.go
@@ -113,7 +113,7 @@ func (entity *T808_0x8602) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8602) Decode(data []byte) (int, error) {
-	if len(data) < 24 {
+	if len(data) < 2 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
diff --git a/protocol/t808_0x8604.go b/protocol/t808_0x8604.go
index 80400f5..109a040 100644
--- a/protocol/t808_0x8604.go
+++ b/protocol/t808_0x8604.go
@@ -94,7 +94,7 @@ func (entity *T808_0x8604) Encode() ([]byte, error) {
 }
 
 func (entity *T808_0x8604) Decode(data []byte) (int, error) {
-	if len(data) < 16 {
+	if len(data) < 8 {
 		return 0, ErrInvalidBody
 	}
 	reader := NewReader(data)
-- 
2.43.0


From 2940aa5f343466eccabba8af905165d3814ff33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 24/32] fix: a received location keeps the data of its
 extensions when it is sent on

---
 protocol/extra/0x01.go | 1 +
 protocol/extra/0x02.go | 1 +
 protocol/extra/0x03.go | 1 +
 protocol/extra/0x04.go | 1 +
 protocol/extra/0x11.go | 2 ++
 protocol/extra/0x12.go | 1 +
 protocol/extra/0x13.go | 1 +
 protocol/extra/0x25.go | 1 +
 protocol/extra/0x2a.go | 1 +
 protocol/extra/0x2b.go | 1 +
 protocol/extra/0x30.go | 1 +
 protocol/extra/0x31.go | 1 +
 12 files changed, 13 insertions(+)

diff --git a/protocol/extra/0x01.go b/protocol/extra/0x01.go
index fd4922b..f4921fc 100644
--- a/protocol/extra/0x01.go
+++ b/protocol/extra/0x01.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x01) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x02.go b/protocol/extra/0x02.go
index 479c464..9702b2c 100644
--- a/protocol/extra/0x02.go
+++ b/protocol/extra/0x02.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x02) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x03.go b/protocol/extra/0x03.go
index d1d862e..8cc30f4 100644
--- a/protocol/extra/0x03.go
+++ b/protocol/extra/0x03.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x03) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x04.go b/protocol/extra/0x04.go
index 219fe5b..c3123be 100644
--- a/protocol/extra/0x04.go
+++ b/protocol/extra/0x04.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x04) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x11.go b/protocol/extra/0x11.go
index 9b8cb9d..6361e0d 100644
--- a/protocol/extra/0x11.go
+++ b/protocol/extra/0x11.go
@@ -52,6 +52,7 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	extra.value.AreaID = nil
 	extra.value.Type = data[0]
 	if extra.value.Type == 0 {
+		extra.serialized = append([]byte(nil), data[:1]...)
 		return 1, nil
 	}
 
@@ -60,5 +61,6 @@ func (extra *Extra_0x11) Decode(data []byte) (int, error) {
 	}
 	areaID := binary.BigEndian.Uint32(data[1:])
 	extra.value.AreaID = &areaID
+	extra.serialized = append([]byte(nil), data[:5]...)
 	return 5, nil
 }
diff --git a/protocol/extra/0x12.go b/protocol/extra/0x12.go
index fd823d7..23a8b95 100644
--- a/protocol/extra/0x12.go
+++ b/protocol/extra/0x12.go
@@ -56,5 +56,6 @@ func (extra *Extra_0x12) Decode(data []byte) (int, error) {
 	extra.value.Type = data[0]
 	extra.value.AreaID = binary.BigEndian.Uint32(data[1:5])
 	extra.value.Direction = data[5]
+	extra.serialized = append([]byte(nil), data[:6]...)
 	return 6, nil
 }
diff --git a/protocol/extra/0x13.go b/protocol/extra/0x13.go
index 507ddd8..39d8a8c 100644
--- a/protocol/extra/0x13.go
+++ b/protocol/extra/0x13.go
@@ -57,5 +57,6 @@ func (extra *Extra_0x13) Decode(data []byte) (int, error) {
 	extra.value.RoadID = binary.BigEndian.Uint32(data[:4])
 	extra.value.Duration = binary.BigEndian.Uint16(data[4:6])
 	extra.value.Result = data[6]
+	extra.serialized = append([]byte(nil), data[:7]...)
 	return 7, nil
 }
diff --git a/protocol/extra/0x25.go b/protocol/extra/0x25.go
index ff53a52..2b85477 100644
--- a/protocol/extra/0x25.go
+++ b/protocol/extra/0x25.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x25) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x2a.go b/protocol/extra/0x2a.go
index c7fd0c1..345010f 100644
--- a/protocol/extra/0x2a.go
+++ b/protocol/extra/0x2a.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2A) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint16(data)
+	extra.serialized = append([]byte(nil), data[:2]...)
 	return 2, nil
 }
diff --git a/protocol/extra/0x2b.go b/protocol/extra/0x2b.go
index 1b49621..6c56444 100644
--- a/protocol/extra/0x2b.go
+++ b/protocol/extra/0x2b.go
@@ -39,5 +39,6 @@ func (extra *Extra_0x2B) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = binary.BigEndian.Uint32(data)
+	extra.serialized = append([]byte(nil), data[:4]...)
 	return 4, nil
 }
diff --git a/protocol/extra/0x30.go b/protocol/extra/0x30.go
index cfdd4f5..56122e9 100644
--- a/protocol/extra/0x30.go
+++ b/protocol/extra/0x30.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x30) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
diff --git a/protocol/extra/0x31.go b/protocol/extra/0x31.go
index d43f67c..2bc0187 100644
--- a/protocol/extra/0x31.go
+++ b/protocol/extra/0x31.go
@@ -35,5 +35,6 @@ func (extra *Extra_0x31) Decode(data []byte) (int, error) {
 		return 0, errors.ErrInvalidExtraLength
 	}
 	extra.value = data[0]
+	extra.serialized = append([]byte(nil), data[:1]...)
 	return 1, nil
 }
-- 
2.43.0


From ac0bd2df6125767cdc063e8a6eb541679b74eb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 25/32] fix: messages and location extensions of a type that is
 not a pointer do not panic

---
 protocol/helpers.go     | 11 +++++++++++
 protocol/message.go     |  3 +--
 protocol/t808_0x0200.go |  3 +--
 session.go              | 12 +++++++++++-
 session_handler.go      |  3 +--
 5 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/protocol/helpers.go b/protocol/helpers.go
index c0aa35e..4337085 100644
--- a/protocol/helpers.go
+++ b/protocol/helpers.go
@@ -7,9 +7,20 @@ import (
 	"gitee.com/coco/go808/errors"
 	"github.com/shopspring/decimal"
 	"hash"
+	"reflect"
 	"time"
 )
 
+// 是否为空值，消息体和附加信息可以是非指针类型
+func isNil(v interface{}) bool {
+	value := reflect.ValueOf(v)
+	switch value.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice:
+		return value.IsNil()
+	}
+	return false
+}
+
 // 使用RSA-OAEP加密
 func EncryptOAEP(hash hash.Hash, pub *rsa.PublicKey, msg []byte, label []byte) ([]byte, error) {
 	buffer := bytes.NewBuffer(nil)
diff --git a/protocol/message.go b/protocol/message.go
index e7e4a63..0641ad3 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"gitee.com/coco/go808/errors"
 	log "github.com/sirupsen/logrus"
-	"reflect"
 )
 
 // 消息包
@@ -23,7 +22,7 @@ func (message *Message) Encode(key ...*rsa.PublicKey) ([]byte, error) {
 	var err error
 	var body []byte
 	checkSum := byte(0x00)
-	if message.Body != nil && !reflect.ValueOf(message.Body).IsNil() {
+	if message.Body != nil && !isNil(message.Body) {
 		body, err = message.Body.Encode()
 		if err != nil {
 			return nil, err
diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 9fd3ca9..9dfb1fa 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -7,7 +7,6 @@ import (
 	"github.com/shopspring/decimal"
 	log "github.com/sirupsen/logrus"
 	"math"
-	"reflect"
 	"time"
 )
 
@@ -142,7 +141,7 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 	// 写入附加信息
 	for i := 0; i < len(entity.Extras); i++ {
 		ext := entity.Extras[i]
-		if ext == nil || reflect.ValueOf(ext).IsNil() {
+		if ext == nil || isNil(ext) {
 			continue
 		}
 		data := ext.Data()
diff --git a/session.go b/session.go
index 3b38058..f070a64 100644
--- a/session.go
+++ b/session.go
@@ -38,9 +38,19 @@ func (body *encodedBody) Decode(data []byte) (int, error) {
 	return len(data), nil
 }
 
+// 是否为空值，消息体可以是非指针类型
+func isNil(v interface{}) bool {
+	value := reflect.ValueOf(v)
+	switch value.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice:
+		return value.IsNil()
+	}
+	return false
+}
+
 // 立即编码消息体，发送协程不再访问调用者的实体
 func encodeBody(entity protocol.Entity) (protocol.Entity, error) {
-	if reflect.ValueOf(entity).IsNil() {
+	if isNil(entity) {
 		return entity, nil
 	}
 	data, err := entity.Encode()
diff --git a/session_handler.go b/session_handler.go
index 0dca6bb..778f558 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -6,7 +6,6 @@ import (
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
 	"io/ioutil"
-	"reflect"
 	"strconv"
 	"sync"
 )
@@ -49,7 +48,7 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 
 		// 分发消息
 		message := msg.(protocol.Message)
-		if message.Body == nil || reflect.ValueOf(message.Body).IsNil() {
+		if message.Body == nil || isNil(message.Body) {
 			session.Reply(&message, protocol.T808_0x8001ResultUnsupported)
 			continue
 		}
-- 
2.43.0


From 4d160bee0ce9afa96ab497dd5eb03cf21c05cbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:10 +0000
Subject: [PATCH 26/32] fix: an answer decoded with the application's own type
 does not crash the server

---
 session.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/session.go b/session.go
index f070a64..a187ae2 100644
--- a/session.go
+++ b/session.go
@@ -214,28 +214,44 @@ func (session *Session) message(message *protocol.Message) {
 	switch message.Header.MsgID {
 	case protocol.MsgT808_0x0001:
 		// 终端通用应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0001).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0001); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0104:
 		// 查询终端参数应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0104).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0104); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0201:
 		// 位置信息查询应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0201).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0201); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0302:
 		// 提问应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0302).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0302); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0500:
 		// 车辆控制应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0500).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0500); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0700:
 		// 行驶记录数据上传
-		msgSerialNo = message.Body.(*protocol.T808_0x0700).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0700); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0802:
 		// 存储多媒体数据检索应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0802).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0802); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	case protocol.MsgT808_0x0805:
 		// 摄像头立即拍摄命令应答
-		msgSerialNo = message.Body.(*protocol.T808_0x0805).ReplyMsgSerialNo
+		if body, ok := message.Body.(*protocol.T808_0x0805); ok {
+			msgSerialNo = body.ReplyMsgSerialNo
+		}
 	}
 	if msgSerialNo == 0 {
 		return
-- 
2.43.0


From 3a6b28fc81cfb308a5a5fba5e543e977015cd176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:45 +0000
Subject: [PATCH 27/32] fix: a decoder of the application that panics does not
 crash the server

---
 protocol/message.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/protocol/message.go b/protocol/message.go
index 0641ad3..24cf08a 100644
--- a/protocol/message.go
+++ b/protocol/message.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"gitee.com/coco/go808/errors"
 	log "github.com/sirupsen/logrus"
+	"runtime/debug"
 )
 
 // 消息包
@@ -171,7 +172,7 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 			}
 		}
 
-		entity, _, err := message.decode(uint16(header.MsgID), buffer)
+		entity, err := message.tryDecode(uint16(header.MsgID), buffer)
 		if err == nil {
 			message.Body = entity
 		} else {
@@ -184,6 +185,19 @@ func (message *Message) Decode(data []byte, key ...*rsa.PrivateKey) error {
 	message.Header = header
 	return nil
 }
+
+// 解码消息体，自定义消息解码时崩溃仅视为解码失败
+func (message *Message) tryDecode(typ uint16, data []byte) (entity Entity, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			debug.PrintStack()
+			entity, err = nil, fmt.Errorf("panic: %v", r)
+		}
+	}()
+	entity, _, err = message.decode(typ, data)
+	return entity, err
+}
+
 func (message *Message) decode(typ uint16, data []byte) (Entity, int, error) {
 	creator, ok := entityMapper[typ]
 	if !ok {
-- 
2.43.0


From 26664375082d303742721e8f5d4a919204654357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 28/32] fix: a broadcast message whose body comes from a reader
 reaches every session whole

---
 server.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/server.go b/server.go
index f16d6bd..b0ab8bd 100644
--- a/server.go
+++ b/server.go
@@ -127,6 +127,12 @@ func (server *Server) Broadcast(entity protocol.Entity) int {
 	}
 	server.mutex.Unlock()
 
+	// 消息体只编码一次，各会话收到的内容一致
+	entity, err := encodeBody(entity)
+	if err != nil {
+		return 0
+	}
+
 	count := 0
 	for _, session := range sessions {
 		if _, err := session.Send(entity); err == nil {
-- 
2.43.0


From ee0cd4d762df8c56cc4a176553ea2e65e6264426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 29/32] fix: encoding a message does not change the sender's
 message

---
 protocol/t808_0x0705.go | 7 ++++---
 protocol/t808_0x0801.go | 5 +++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0705.go b/protocol/t808_0x0705.go
index 0bea529..fb63606 100644
--- a/protocol/t808_0x0705.go
+++ b/protocol/t808_0x0705.go
@@ -38,10 +38,11 @@ func (entity *T808_0x0705) Encode() ([]byte, error) {
 	writer.WriteUint16(uint16(len(entity.Items)))
 
 	// 写入数据接收时间
-	if entity.ReceiveTime > time.Hour*24 {
-		entity.ReceiveTime = time.Hour * 24
+	receiveTime := entity.ReceiveTime
+	if receiveTime > time.Hour*24 {
+		receiveTime = time.Hour * 24
 	}
-	t := time.Time{}.Add(entity.ReceiveTime)
+	t := time.Time{}.Add(receiveTime)
 	s := fmt.Sprintf("%02d%02d%02d%04d",
 		t.Hour(), t.Minute(), t.Second(), t.Nanosecond()/int(time.Millisecond))
 	writer.Write(stringToBCD(s), 5)
diff --git a/protocol/t808_0x0801.go b/protocol/t808_0x0801.go
index b6aed99..629fc89 100644
--- a/protocol/t808_0x0801.go
+++ b/protocol/t808_0x0801.go
@@ -47,8 +47,9 @@ func (entity *T808_0x0801) Encode() ([]byte, error) {
 	writer.WriteByte(entity.ChannelID)
 
 	// 写入定位信息
-	entity.Location.Extras = nil
-	data, err := entity.Location.Encode()
+	location := entity.Location
+	location.Extras = nil
+	data, err := location.Encode()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From d36ced8959f2abc44febf239714d6865bc29140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:54 +0000
Subject: [PATCH 30/32] fix: encoding a position or a circular area does not
 change the sender's message

---
 protocol/t808_0x0200.go | 7 ++++---
 protocol/t808_0x8600.go | 3 +--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/protocol/t808_0x0200.go b/protocol/t808_0x0200.go
index 9dfb1fa..63f063e 100644
--- a/protocol/t808_0x0200.go
+++ b/protocol/t808_0x0200.go
@@ -109,16 +109,17 @@ func (entity *T808_0x0200) Encode() ([]byte, error) {
 	// 计算经纬度
 	mul := decimal.NewFromFloat(1000000)
 	lat := entity.Lat.Mul(mul).IntPart()
+	status := entity.Status
 	if lat < 0 {
-		entity.Status.SetSouthLatitude(true)
+		status.SetSouthLatitude(true)
 	}
 	lng := entity.Lng.Mul(mul).IntPart()
 	if lng < 0 {
-		entity.Status.SetWestLongitude(true)
+		status.SetWestLongitude(true)
 	}
 
 	// 写入状态信息
-	writer.WriteUint32(uint32(entity.Status))
+	writer.WriteUint32(uint32(status))
 
 	// 写入纬度信息
 	writer.WriteUint32(uint32(math.Abs(float64(lat))))
diff --git a/protocol/t808_0x8600.go b/protocol/t808_0x8600.go
index 9f460b6..b9985b7 100644
--- a/protocol/t808_0x8600.go
+++ b/protocol/t808_0x8600.go
@@ -98,8 +98,7 @@ func (entity *T808_0x8600) Encode() ([]byte, error) {
 	writer.WriteByte(byte(len(entity.Items)))
 
 	// 写入区域信息
-	for idx := range entity.Items {
-		item := &entity.Items[idx]
+	for _, item := range entity.Items {
 
 		// 写入区域ID
 		writer.WriteUint32(item.ID)
-- 
2.43.0


From 5a7610c961fe9aae620584b7326a7345fc1bc1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:24 +0000
Subject: [PATCH 31/32] fix: a packet numbered 0 of 0 is not a complete message

---
 multipart.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multipart.go b/multipart.go
index 24b0162..9a331b8 100644
--- a/multipart.go
+++ b/multipart.go
@@ -30,7 +30,7 @@ func (m MultipartFile) IsFull() bool {
 		delete(set, seq)
 		return nil
 	})
-	return err == nil && len(set) == 0
+	return err == nil && m.Sum > 0 && len(set) == 0
 }
 
 // 合并文件
-- 
2.43.0


From 30715788f1759997e1b0d793fb08c26b4ba20db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:46 +0000
Subject: [PATCH 32/32] fix: a packet type that panics costs only that packet

GetTag, GetReader and SetReader of an application's packet type, and the
reader it returns, were called unguarded: a panic, or a missing reader,
ended the process. The packet is now answered with failure.
---
 session_handler.go | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/session_handler.go b/session_handler.go
index 778f558..5d119f1 100644
--- a/session_handler.go
+++ b/session_handler.go
@@ -5,7 +5,9 @@ import (
 	"gitee.com/coco/go808/protocol"
 	"github.com/funny/link"
 	log "github.com/sirupsen/logrus"
+	"io"
 	"io/ioutil"
+	"runtime/debug"
 	"strconv"
 	"sync"
 )
@@ -67,13 +69,13 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			continue
 		}
 
+		tag, buf, err := readPacket(entityPacket)
 		multipartFile := MultipartFile{
 			IccID: message.Header.IccID,
 			MsgID: message.Header.MsgID,
-			Tag:   entityPacket.GetTag(),
+			Tag:   tag,
 			Sum:   message.Header.Packet.Sum,
 		}
-		buf, err := ioutil.ReadAll(entityPacket.GetReader())
 		if err != nil {
 			log.WithFields(log.Fields{
 				"iccid":  message.Header.IccID,
@@ -118,12 +120,46 @@ func (handler sessionHandler) HandleSession(sess *link.Session) {
 			session.Reply(&message, protocol.T808_0x8001ResultFail)
 			continue
 		}
+		if err := setReader(entityPacket, reader); err != nil {
+			log.WithFields(log.Fields{
+				"iccid":  message.Header.IccID,
+				"msgid":  fmt.Sprintf("0x%x", message.Header.MsgID),
+				"reason": err,
+			}).Warn("[JT/T 808] failed to set packet reader")
+			reader.Close()
+			session.Reply(&message, protocol.T808_0x8001ResultFail)
+			continue
+		}
 		session.Reply(&message, protocol.T808_0x8001ResultSuccess)
 
 		// 分发分包消息
-		entityPacket.SetReader(reader)
 		session.message(&message)
 		handler.server.dispatchMessage(session, &message)
 		reader.Close()
 	}
 }
+
+// 读取分包数据，自定义消息崩溃仅视为读取失败
+func readPacket(entity protocol.EntityPacket) (tag uint32, data []byte, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			debug.PrintStack()
+			err = fmt.Errorf("panic: %v", r)
+		}
+	}()
+	tag = entity.GetTag()
+	data, err = ioutil.ReadAll(entity.GetReader())
+	return tag, data, err
+}
+
+// 设置合并后的数据，自定义消息崩溃仅视为设置失败
+func setReader(entity protocol.EntityPacket, reader io.Reader) (err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			debug.PrintStack()
+			err = fmt.Errorf("panic: %v", r)
+		}
+	}()
+	entity.SetReader(reader)
+	return nil
+}
-- 
2.43.0

