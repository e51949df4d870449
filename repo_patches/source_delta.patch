From 5d1649219b83ae27e330c75f23241d30a7c3a938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 01/46] fix: compile the patterns of a comma separated matcher

The matcher held uncompiled patterns, which compared every name with the
empty string: no configured pattern ever matched.
---
 scouterx/common/util/strmatch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index 5b6ebfd..a1f98f1 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -122,7 +122,7 @@ func NewCommaSeparatedChainedStrMatcher(patterns string) CommaSeparatedChainedSt
 	matcher := CommaSeparatedChainedStrMatcher{}
 	arrPatterns := strings.Split(patterns, ",")
 	for _, pattern := range arrPatterns {
-		matcher.strMatches = append(matcher.strMatches, StrMatch{Pattern: pattern})
+		matcher.strMatches = append(matcher.strMatches, NewStrMatch(pattern))
 	}
 	return matcher
 }
-- 
2.43.0


From caab7b3539e46af7204cbcb3b793ca7a567e840c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 02/46] fix: wildcard patterns must match their parts in order,
 without overlap

"a*a" matched "a", "*ab*ba*" matched "aba", "/x*y" with the parts the wrong
way round matched, and a third wildcard was taken literally.
---
 scouterx/common/util/strmatch.go | 34 ++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/util/strmatch.go b/scouterx/common/util/strmatch.go
index a1f98f1..c1bfe81 100644
--- a/scouterx/common/util/strmatch.go
+++ b/scouterx/common/util/strmatch.go
@@ -17,11 +17,13 @@ const c_MID_MID compType = 5
 const c_MID_END compType = 6
 const c_END compType = 7
 const c_ANY compType = 8
+const c_MULTI compType = 9
 
 type StrMatch struct {
 	Pattern               string
 	comp                  compType
 	start, end, mid, mid2 string
+	parts                 []string
 }
 
 func NewStrMatch(pattern string) StrMatch {
@@ -78,6 +80,11 @@ func NewStrMatch(pattern string) StrMatch {
 			m.mid = pattern
 		}
 	}
+	if strings.IndexByte(m.start+m.mid+m.mid2+m.end, asta) >= 0 {
+		// more wildcards than the forms above can express
+		m.comp = c_MULTI
+		m.parts = strings.Split(pattern, asta1)
+	}
 	return m
 }
 
@@ -93,9 +100,9 @@ func (m *StrMatch) include(target string) bool {
 	case c_STR:
 		return strings.HasPrefix(target, m.start)
 	case c_STR_MID:
-		return strings.HasPrefix(target, m.start) && strings.Contains(target, m.mid)
+		return strings.HasPrefix(target, m.start) && strings.Contains(target[len(m.start):], m.mid)
 	case c_STR_END:
-		return strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
+		return len(target) >= len(m.start)+len(m.end) && strings.HasPrefix(target, m.start) && strings.HasSuffix(target, m.end)
 	case c_MID:
 		return strings.Contains(target, m.mid)
 	case c_MID_MID:
@@ -103,16 +110,35 @@ func (m *StrMatch) include(target string) bool {
 		if x < 0 {
 			return false
 		}
-		return strings.Contains(target, m.mid2) && strings.HasSuffix(target, m.end)
+		return strings.Contains(target[x+len(m.mid):], m.mid2)
 	case c_MID_END:
-		return strings.Contains(target, m.mid) && strings.HasSuffix(target, m.end)
+		x := strings.Index(target, m.mid)
+		return x >= 0 && strings.HasSuffix(target[x+len(m.mid):], m.end)
 	case c_END:
 		return strings.HasSuffix(target, m.end)
+	case c_MULTI:
+		return m.includeParts(target)
 	default:
 		return false
 	}
 }
 
+// includeParts matches the literal parts between the wildcards, in order and without overlap.
+func (m *StrMatch) includeParts(target string) bool {
+	last := len(m.parts) - 1
+	if !strings.HasPrefix(target, m.parts[0]) {
+		return false
+	}
+	rest := target[len(m.parts[0]):]
+	for _, part := range m.parts[1:last] {
+		x := strings.Index(rest, part)
+		if x < 0 {
+			return false
+		}
+		rest = rest[x+len(part):]
+	}
+	return strings.HasSuffix(rest, m.parts[last])
+}
 
 type CommaSeparatedChainedStrMatcher struct {
 	strMatches []StrMatch
-- 
2.43.0


From 4f421e3eb745f75268bb1aac783b3efbcd12354a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 03/46] fix: honour xlog_discard_service_show_error

---
 scouterx/strace/tracemain.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index aee471c..9749e69 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -407,7 +407,7 @@ func findXLogDiscard(tctx *netio.TraceContext, elapsed int32) netdata.XlogDiscar
 	//check xlog discard pattern
 	if GetXlogSampler().isDiscardServicePattern(tctx.ServiceName) {
 		discardMode = netdata.XLOG_DISCARD_ALL_FORCE
-		if tctx.Error != 0 {
+		if tctx.Error != 0 && ac.XlogDiscardServiceShowError {
 			discardMode = netdata.XLOG_DISCARD_NONE
 		}
 	}
-- 
2.43.0


From 2c255788140a0bbb76a0072f05c129d218e6b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 04/46] fix: end a service exactly once when several goroutines
 end it

Testing and setting Closed was not atomic: EndService racing with another
EndService or with the stuck service sweep reported the service twice.
---
 scouterx/netio/tracecontext.go | 8 ++++++++
 scouterx/strace/tracemain.go   | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/scouterx/netio/tracecontext.go b/scouterx/netio/tracecontext.go
index 28726fa..43cba2e 100644
--- a/scouterx/netio/tracecontext.go
+++ b/scouterx/netio/tracecontext.go
@@ -5,6 +5,7 @@ import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/util/keygen"
 	"strconv"
+	"sync/atomic"
 	"time"
 )
 
@@ -75,6 +76,13 @@ type TraceContext struct {
 
 	//TODO public Queue<DumpStep> temporaryDumpSteps = new LinkedBlockingQueue<DumpStep>(5);
 	//TODO public boolean hasDumpStack;
+
+	closing int32
+}
+
+// BeginClose returns true to exactly one of its callers.
+func (tctx *TraceContext) BeginClose() bool {
+	return atomic.CompareAndSwapInt32(&tctx.closing, 0, 1)
 }
 
 func NewTraceContext() *TraceContext {
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 9749e69..c9fc957 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -374,6 +374,9 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 	if tctx.Closed {
 		return
 	}
+	if !tctx.BeginClose() {
+		return
+	}
 	tctx.Closed = true
 
 	tctx.ServiceHash = netio.SendServiceName(tctx.ServiceName)
-- 
2.43.0


From 40d5b18b15c6965b873e67b5f77e6be28e77012a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:35 +0000
Subject: [PATCH 05/46] fix: xlog profile count and size include the final
 flush

---
 scouterx/strace/tracemain.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index c9fc957..43aff53 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -388,6 +388,8 @@ func endAnyServiceOfTraceContext(tctx *netio.TraceContext) {
 
 	writeProfile := discardType == netdata.XLOG_DISCARD_NONE //TODO consequence sampling
 	tctx.Profile.Close(writeProfile)
+	xlog.ProfileCount = int32(tctx.ProfileCount)
+	xlog.ProfileSize = int32(tctx.ProfileSize)
 
 	counter.GetServiceMeter().Add(int(xlog.Elapsed), xlog.Error != 0)
 	//TODO meteringInteraction
-- 
2.43.0


From 8d591715a27c56a2dd449cacc0b4de0325883540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 06/46] fix: profile steps of concurrent goroutines and of
 ended services

A trace context travels with context.Context, so several goroutines may add
steps to the same collector: indexes were duplicated, steps were lost and the
buffer could be written out of range. Steps added after the service ended were
kept and could be sent again. A non positive
profile_step_max_keep_in_memory_count made every service start fail.
---
 scouterx/netio/profilecollector.go | 40 +++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 4 deletions(-)

diff --git a/scouterx/netio/profilecollector.go b/scouterx/netio/profilecollector.go
index 3aaff6d..d2b8039 100644
--- a/scouterx/netio/profilecollector.go
+++ b/scouterx/netio/profilecollector.go
@@ -3,11 +3,14 @@ package netio
 import (
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/conf"
 	"github.com/scouter-contrib/scouter-agent-golang/scouterx/common/netdata"
+	"sync"
 )
 
 var aconf = conf.GetInstance()
 
 type ProfileCollector struct {
+	lock sync.Mutex
+	closed bool
 	tctx *TraceContext
 	steps []netdata.Step
 	pos int
@@ -19,11 +22,21 @@ type ProfileCollector struct {
 func NewProfileCollector(tctx *TraceContext) *ProfileCollector {
 	collector := new(ProfileCollector)
 	collector.tctx = tctx
-	collector.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
+	collector.steps = newStepBuffer()
 	return collector
 }
 
+func newStepBuffer() []netdata.Step {
+	size := aconf.ProfileStepMaxKeepInMemoryCount
+	if size < 1 {
+		size = 1
+	}
+	return make([]netdata.Step, size)
+}
+
 func (c *ProfileCollector) Push(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
@@ -32,33 +45,52 @@ func (c *ProfileCollector) Push(ss netdata.Step) {
 }
 
 func (c *ProfileCollector) Pop(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	c.parentLevel = ss.GetParent()
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Add(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
 	ss.SetIndex(c.currentLevel)
 	ss.SetParent(c.parentLevel)
 	c.currentLevel++
-	c.Process(ss)
+	c.process(ss)
 }
 
 func (c *ProfileCollector) Process(ss netdata.Step) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+	c.process(ss)
+}
+
+func (c *ProfileCollector) process(ss netdata.Step) {
+	if c.closed {
+		return
+	}
 	c.checkDumpStep()
 	c.steps[c.pos] = ss
 	c.pos++
 	if c.pos >= len(c.steps) {
 		var o = c.steps
-		c.steps = make([]netdata.Step, aconf.ProfileStepMaxKeepInMemoryCount)
+		c.steps = newStepBuffer()
 		c.pos = 0;
 		SendProfile(o, c.tctx)
 	}
 }
 
 func (c *ProfileCollector) Close(ok bool) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	c.checkDumpStep()
+	if c.closed {
+		return
+	}
+	c.closed = true
 	if c.pos > 0 && ok {
 		SendProfile(c.steps[0 : c.pos], c.tctx)
 	}
-- 
2.43.0


From 868e1db9c8d6c921e936cca98b31bd6b524f81b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 07/46] fix: non positive size settings must not crash the host

udp_max_bytes=0 and profile_step_max_count=0 divided by zero and a negative
send_queue_size made the channel creation panic.
---
 scouterx/common/factory/channelfactory/channelfactory.go | 6 +++++-
 scouterx/netio/dataproxy.go                              | 3 +++
 scouterx/netio/udpclient/udpclient.go                    | 4 +++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/scouterx/common/factory/channelfactory/channelfactory.go b/scouterx/common/factory/channelfactory/channelfactory.go
index d9b8177..ac74b4d 100644
--- a/scouterx/common/factory/channelfactory/channelfactory.go
+++ b/scouterx/common/factory/channelfactory/channelfactory.go
@@ -11,7 +11,11 @@ var udpChannel chan []byte
 //GetUDPChannel returns  channel which stores pack data.
 func GetUDPChannel() chan []byte {
 	once.Do(func() {
-		udpChannel = make(chan []byte, conf.GetInstance().SendQueueSize)
+		size := conf.GetInstance().SendQueueSize
+		if size < 1 {
+			size = 1
+		}
+		udpChannel = make(chan []byte, size)
 	})
 	return udpChannel
 }
diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 7782a09..c2d0d0d 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -216,6 +216,9 @@ func SendProfile(steps []netdata.Step, tctx *TraceContext) {
 		return
 	}
 	bulkSize := ac.ProfileStepMaxCount
+	if bulkSize <= 0 {
+		bulkSize = len(steps)
+	}
 	count := len(steps) / bulkSize
 	if count == 0 {
 		sendProfile0(steps, tctx)
diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index 65f3b97..46021d6 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -28,7 +28,9 @@ func New(addr string , port int) *UDPClient {
 }
 
 func (udpClient *UDPClient) SetUDPMaxBytes (max int) {
-	udpClient.udpMaxBytes = max
+	if max > 0 {
+		udpClient.udpMaxBytes = max
+	}
 }
 
 
-- 
2.43.0


From 6cbbd78deb0b15e484b032b3b7288f9284148286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 08/46] fix: a failure inside the agent must not reach the host

The panic handler called an unregistered reporter, the final panic guard was
not deferred, the counter task went on with a nil pack after a recovered panic
and a recovered panic in StartService gave the host a nil context.
---
 scouterx/common/panic.go                   |  3 +++
 scouterx/netio/dataproxy.go                |  2 +-
 scouterx/strace/tctxmanager/tctxmanager.go |  4 +++-
 scouterx/strace/tracemain.go               | 10 ++++++++++
 scouterx/task/countertask/countertask.go   |  3 +++
 5 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/scouterx/common/panic.go b/scouterx/common/panic.go
index f928e1b..4c5ea28 100644
--- a/scouterx/common/panic.go
+++ b/scouterx/common/panic.go
@@ -18,6 +18,9 @@ func ReportScouterPanic() {
 	if r := recover(); r != nil {
 		stackTrace := dump.StackTrace(100)
 		fmt.Printf("[scouter][panic]%+v\n%s", r, stackTrace)
+		if fSendPanic == nil {
+			return
+		}
 		fSendPanic(fmt.Sprintf("%+v - %s", r, stackTrace))
 	}
 }
diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index c2d0d0d..13730bb 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -45,7 +45,7 @@ func reportScouterPanicFinal() {
 }
 
 func SendPanic(message string) {
-	reportScouterPanicFinal()
+	defer reportScouterPanicFinal()
 	SendAlert(netdata.AlertFatal, "Panic", message)
 }
 
diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index dc046b8..1c0dd7d 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -93,7 +93,9 @@ func GetActiveCount() [3]int64 {
 			active[2]++
 		}
 		if elapsed > ac.StuckServiceBaseTimeMs {
-			fEndStuckServiceForcibly(tctx)
+			if fEndStuckServiceForcibly != nil {
+				fEndStuckServiceForcibly(tctx)
+			}
 			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed, tctx.Goid)
 			if ac.StuckServiceAlertEnabled {
 				netio.SendAlert(netdata.AlertError, "STUCK_SERVICE", message)
diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 43aff53..ca26f1c 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -151,6 +151,11 @@ func AddPMessageStep(ctx context.Context, level netdata.PMessageLevel, message s
 }
 
 func StartHttpService(ctx context.Context, req *http.Request) (newCtx context.Context) {
+	defer func() {
+		if newCtx == nil {
+			newCtx = ctx
+		}
+	}()
 	defer common.ReportScouterPanic()
 	if ctx == nil {
 		return context.Background()
@@ -209,6 +214,11 @@ func EndHttpService(ctx context.Context, req *http.Request, res *http.Response)
 }
 
 func StartService(ctx context.Context, serviceName, remoteIp string) (newCtx context.Context) {
+	defer func() {
+		if newCtx == nil {
+			newCtx = ctx
+		}
+	}()
 	defer common.ReportScouterPanic()
 	if ctx == nil {
 		ctx = context.Background()
diff --git a/scouterx/task/countertask/countertask.go b/scouterx/task/countertask/countertask.go
index 02a4ff8..fd1e569 100644
--- a/scouterx/task/countertask/countertask.go
+++ b/scouterx/task/countertask/countertask.go
@@ -23,6 +23,9 @@ func startRealTimeCounter() {
 	for {
 		time.Sleep(2000 * time.Millisecond)
 		pack := getAllCounterOnPack()
+		if pack == nil {
+			continue
+		}
 		netio.SendPackDirect(pack)
 	}
 }
-- 
2.43.0


From 2f50e200ded24a7f1375327eb9cd81775a44ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 09/46] fix: an unwritable log file must not terminate the host
 process

---
 scouterx/common/logger/logger.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/logger/logger.go b/scouterx/common/logger/logger.go
index 1be4dac..3b7620e 100644
--- a/scouterx/common/logger/logger.go
+++ b/scouterx/common/logger/logger.go
@@ -16,7 +16,8 @@ func Init() {
 	fileName := filepath.Join(logPath, "scouter.log")
 	logfile, e := os.OpenFile(fileName, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0666)
 	if e != nil {
-		log.Fatalln("cannot open log file")
+		log.Println("cannot open log file")
+		logfile, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
 	}
 
 	Trace = log.New(io.MultiWriter(logfile, os.Stdout), "trace:", log.Ldate|log.Ltime|log.Lshortfile)
-- 
2.43.0


From 3ed2a588056330008725a5e1cd964483457d8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 10/46] fix: a text dropped by a full send queue must be sent
 again later

The hash was remembered as sent although the text never left the process, so
the collector could not resolve it until the cache was reset.
---
 scouterx/netio/dataproxy.go           | 44 ++++++++++++++++++++-------
 scouterx/netio/udpsender/udpsender.go |  5 ++-
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index 13730bb..e448cc1 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -58,7 +58,9 @@ func SendServiceName(name string) int32 {
 		return hash
 	}
 	serviceNameSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.SERVICE, hash, name}) {
+		serviceNameSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -71,7 +73,9 @@ func SendHashedMessage(name string) int32 {
 		return hash
 	}
 	hashMessageSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.HASH_MSG, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.HASH_MSG, hash, name}) {
+		hashMessageSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -84,7 +88,9 @@ func SendObjName(name string) int32 {
 		return hash
 	}
 	objNameSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.OBJECT, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.OBJECT, hash, name}) {
+		objNameSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -97,7 +103,9 @@ func SendReferer(name string) int32 {
 		return hash
 	}
 	refererSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.REFERER, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.REFERER, hash, name}) {
+		refererSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -110,7 +118,9 @@ func SendUserAgent(name string) int32 {
 		return hash
 	}
 	userAgentSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.USER_AGENT, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.USER_AGENT, hash, name}) {
+		userAgentSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -123,7 +133,9 @@ func SendMethod(name string) int32 {
 		return hash
 	}
 	methodSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.METHOD, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.METHOD, hash, name}) {
+		methodSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -136,7 +148,9 @@ func SendApicall(name string) int32 {
 		return hash
 	}
 	apicallSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.APICALL, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.APICALL, hash, name}) {
+		apicallSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -149,7 +163,9 @@ func SendError(name string) int32 {
 		return hash
 	}
 	errorSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.ERROR, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.ERROR, hash, name}) {
+		errorSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -176,7 +192,9 @@ func SendLogin(name string) int32 {
 		return hash
 	}
 	loginSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.LOGIN, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.LOGIN, hash, name}) {
+		loginSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -189,7 +207,9 @@ func SendDesc(name string) int32 {
 		return hash
 	}
 	descSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.DESC, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.DESC, hash, name}) {
+		descSent.Remove(hash)
+	}
 	return hash
 }
 
@@ -202,7 +222,9 @@ func SendStackElement(name string) int32 {
 		return hash
 	}
 	stackElementSent.AddKey(hash)
-	udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.STACK_ELEMENT, hash, name})
+	if !udpsender.GetInstance().AddPack(&netdata.TextPack{texttype.STACK_ELEMENT, hash, name}) {
+		stackElementSent.Remove(hash)
+	}
 	return hash
 }
 
diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 2c7b948..3702429 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -66,13 +66,16 @@ func reloadUdpSender() {
 	}
 }
 
-func (udpSender *UDPSender) AddPack(pack netdata.Pack) {
+// AddPack returns false if the pack is dropped because the queue is full.
+func (udpSender *UDPSender) AddPack(pack netdata.Pack) bool {
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
 	bytes := writePack.Bytes()
 	select {
 	case udpSender.udpChannel <- bytes:
+		return true
 	default:
 		logger.Warning.Println("udp channel is full.")
+		return false
 	}
 }
 
-- 
2.43.0


From 891121c7a8c2f3a965ee0d5694f0c280beb7800c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 11/46] fix: listing a cache while it changes

GetValues released the lock while it walked the map: a concurrent Add or
Remove ended the host with "concurrent map iteration and map write".
Empty took the read lock twice, which deadlocks with a waiting writer.
---
 scouterx/common/structure/cachemap/cachemap.go   | 4 +---
 scouterx/common/structure/cachemap2/cachemap2.go | 4 +---
 scouterx/common/structure/lra/lra.go             | 6 ++----
 3 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index fad02b2..979c27c 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -14,15 +14,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(m.table.Size()) * 1.2))
 	for _, v := range m.table.Values() {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index fce8574..0909f55 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -18,15 +18,13 @@ type CacheMap struct {
 }
 
 func (m *CacheMap) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(len(m.table)) * 1.2))
 	for _, v := range m.table {
-		lock.RUnlock()
 		if v != nil {
 			l = append(l, v)
 		}
-		lock.RLock()
 	}
 	return l
 }
diff --git a/scouterx/common/structure/lra/lra.go b/scouterx/common/structure/lra/lra.go
index 317681d..da16e74 100644
--- a/scouterx/common/structure/lra/lra.go
+++ b/scouterx/common/structure/lra/lra.go
@@ -71,7 +71,7 @@ func (c *Cache) Contains(key interface{}) bool {
 func (c *Cache) Empty() bool {
 	lock.RLock()
 	defer lock.RUnlock()
-	return c.Size() == 0
+	return c.lst.Len() == 0
 }
 
 
@@ -119,18 +119,16 @@ func (c *Cache) Clear() {
 }
 
 func (c *Cache) GetValues() []interface{} {
-	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	lock.RLock()
 	defer lock.RUnlock()
+	l := make([]interface{}, 0, int(float32(c.lst.Len()) * 1.2))
 	for _, e := range c.table {
-		lock.RUnlock()
 		if e != nil {
 			kv := e.Value.(*entry)
 			if kv != nil && kv.value != nil {
 				l = append(l, kv.value)
 			}
 		}
-		lock.RLock()
 	}
 	return l
 }
-- 
2.43.0


From a14385965f5bbdb89b831357020e3f466caaa0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 12/46] fix: removed keys of cachemap2 must not take part in
 size and eviction

---
 scouterx/common/structure/cachemap2/cachemap2.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index 0909f55..931c215 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -67,6 +67,10 @@ func (m *CacheMap) Remove(key interface{}) {
 	lock.Lock()
 	defer lock.Unlock()
 	delete(m.table, key)
+	if index := m.ordering.IndexOf(key); index >= 0 {
+		m.ordering.Remove(index)
+		delete(m.orderPos, key)
+	}
 	//index, contains := m.orderPos[key]
 	//if contains {
 	//	m.ordering.Remove(index)
-- 
2.43.0


From c728be96babfd51cfca12be57a5eded9c2bfbfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 13/46] fix: read metering buckets under the lock of their
 writers

---
 scouterx/counter/serviceMetering.go | 2 ++
 scouterx/counter/valueMetering.go   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/scouterx/counter/serviceMetering.go b/scouterx/counter/serviceMetering.go
index c17bed1..c3bc3f0 100644
--- a/scouterx/counter/serviceMetering.go
+++ b/scouterx/counter/serviceMetering.go
@@ -59,6 +59,8 @@ func (g *ServiceMetering) Add(elapsed int, err bool) {
 }
 
 func (g *ServiceMetering) GetAllCounter(period int) *ServiceCounter {
+	g.Lock()
+	defer g.Unlock()
 	var countSum int
 	var elapsedSum int
 	var errorSum int
diff --git a/scouterx/counter/valueMetering.go b/scouterx/counter/valueMetering.go
index 4af8c9c..d647939 100644
--- a/scouterx/counter/valueMetering.go
+++ b/scouterx/counter/valueMetering.go
@@ -43,6 +43,8 @@ func (g *ValueMetering) Add(value float64) {
 }
 
 func (g *ValueMetering) GetAllCounter(period int) *ValueMetric {
+	g.Lock()
+	defer g.Unlock()
 	var sum float64
 	var count int32
 	var avg float64
-- 
2.43.0


From 88730373b474208a71819bf264bd07d4629fbeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:02 +0000
Subject: [PATCH 14/46] fix: TPS and error rate of the service counter were
 swapped

---
 scouterx/counter/collector.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/counter/collector.go b/scouterx/counter/collector.go
index 288f310..ed94d9a 100644
--- a/scouterx/counter/collector.go
+++ b/scouterx/counter/collector.go
@@ -49,9 +49,9 @@ func SendServiceCounter() {
 
 	//TODO activeCounter
 	//TODO WAS_ACTIVE_SERVICE, WAS_ACTIVE_SPEED
-	pack.Put(TPS, counter.ErrorRate)
+	pack.Put(TPS, counter.Tps)
 	pack.Put(ELAPSED_TIME, counter.Elapsed)
-	pack.Put(ERROR_RATE, counter.Tps)
+	pack.Put(ERROR_RATE, counter.ErrorRate)
 
 	netio.SendPackDirect(pack)
 }
-- 
2.43.0


From c00cb55ccabb3fd03ca1b63ac50afda8c8aea0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 15/46] fix: decoding must not depend on how the stream is
 segmented, nor trust its lengths

One Read call was taken for the whole data, so a command split over several
TCP segments was cut. Lengths between 32768 and 65535 became negative and
panicked, an unknown pack type dereferenced nil, errors in the middle of a map
or list were overwritten (a broken count looped for ever or exhausted the
memory), deep nesting overflowed the stack and the 3 and 5 byte decimals the
collector writes were read as 0.
---
 scouterx/common/netdata/datainputx.go | 61 +++++++++++++++++++++++----
 scouterx/common/netdata/listvalue.go  |  3 ++
 scouterx/common/netdata/mappack.go    |  6 +++
 scouterx/common/netdata/mapvalue.go   |  6 +++
 4 files changed, 67 insertions(+), 9 deletions(-)

diff --git a/scouterx/common/netdata/datainputx.go b/scouterx/common/netdata/datainputx.go
index 3c6e859..293b439 100644
--- a/scouterx/common/netdata/datainputx.go
+++ b/scouterx/common/netdata/datainputx.go
@@ -11,9 +11,16 @@ import (
 // DataInputX is a byte buffer read stream struct
 type DataInputX struct {
 	offset int32
+	depth  int
 	reader io.Reader
 }
 
+// values nested deeper than this are not read
+const maxValueDepth = 512
+
+// bigger data is read in pieces, so that a broken length does not allocate memory for data that never comes
+const maxReadAtOnce = 1024 * 1024
+
 // NewDataInputX returns DataInputX instace
 func NewDataInputX(any interface{}) *DataInputX {
 	in := new(DataInputX)
@@ -98,7 +105,7 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	case 255:
 		var v int16
 		v, err = in.ReadInt16()
-		length = int32(v)
+		length = int32(uint16(v))
 	case 254:
 		length, err = in.ReadInt32()
 	case 0:
@@ -106,13 +113,10 @@ func (in *DataInputX) ReadBlob() ([]byte, error) {
 	default:
 		length = int32(baseLen)
 	}
-	in.offset += length
-	val := make([]byte, length)
-	_, err = in.reader.Read(val)
 	if err != nil {
-		val = []byte{}
+		return []byte{}, err
 	}
-	return val, err
+	return in.Read(length)
 }
 
 // ReadDecimal returns number value
@@ -129,6 +133,17 @@ func (in *DataInputX) ReadDecimal() (int64, error) {
 		var v int16
 		v, err = in.ReadInt16()
 		return int64(v), err
+	case 3, 5:
+		var b []byte
+		b, err = in.Read(int32(len))
+		if err != nil {
+			return 0, err
+		}
+		v := int64(int8(b[0]))
+		for _, c := range b[1:] {
+			v = v<<8 | int64(c)
+		}
+		return v, nil
 	case 4:
 		var v int32
 		v, err = in.ReadInt32()
@@ -138,7 +153,7 @@ func (in *DataInputX) ReadDecimal() (int64, error) {
 		v, err = in.ReadInt64()
 		return v, err
 	default:
-		return 0, err
+		return 0, errors.New("[scouter] Not defined decimal length:" + strconv.Itoa(int(len)))
 	}
 }
 
@@ -155,6 +170,14 @@ func (in *DataInputX) ReadBoolean() (bool, error) {
 // ReadValue reads value from datainputx
 func (in *DataInputX) ReadValue() (Value, error) {
 	valueType, err := in.ReadInt8()
+	if err != nil {
+		return NewNilValue(), err
+	}
+	if in.depth >= maxValueDepth {
+		return NewNilValue(), errors.New("[scouter] value nested too deep")
+	}
+	in.depth++
+	defer func() { in.depth-- }()
 	value := CreateValue(byte(valueType))
 	if value == nil {
 		return NewNilValue(), errors.New("[scouter] Not defined value type:" + strconv.FormatUint(uint64(valueType), 10))
@@ -166,6 +189,9 @@ func (in *DataInputX) ReadValue() (Value, error) {
 
 func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 	length, err := in.ReadInt32()
+	if err != nil {
+		return []byte{}, err
+	}
 	b, err := in.Read(length)
 	return b, err
 	//val := make([]byte, length)
@@ -177,9 +203,23 @@ func (in *DataInputX) ReadIntBytes() ([]byte, error) {
 }
 
 func (in *DataInputX) Read(len int32) ([]byte, error) {
+	if len < 0 {
+		return []byte{}, errors.New("[scouter] negative length:" + strconv.Itoa(int(len)))
+	}
 	in.offset += len
+	if len > maxReadAtOnce {
+		buffer := new(bytes.Buffer)
+		n, err := io.CopyN(buffer, in.reader, int64(len))
+		if err == io.EOF && n > 0 {
+			err = io.ErrUnexpectedEOF
+		}
+		if err != nil {
+			return []byte{}, err
+		}
+		return buffer.Bytes(), nil
+	}
 	val := make([]byte, len)
-	_, err := in.reader.Read(val)
+	_, err := io.ReadFull(in.reader, val)
 	if err != nil {
 		val = []byte{}
 	}
@@ -192,7 +232,10 @@ func (in *DataInputX) ReadPack() (Pack, error) {
 		return nil, err
 	}
 	pack := CreatePack(byte(packType))
-	pack.Read(in)
+	if pack == nil {
+		return nil, errors.New("[scouter] Not defined pack type:" + strconv.Itoa(int(uint8(packType))))
+	}
+	_, err = pack.Read(in)
 	return pack, err
 
 }
diff --git a/scouterx/common/netdata/listvalue.go b/scouterx/common/netdata/listvalue.go
index 62b8f50..f2b963c 100644
--- a/scouterx/common/netdata/listvalue.go
+++ b/scouterx/common/netdata/listvalue.go
@@ -141,6 +141,9 @@ func (listValue *ListValue) Read(in *DataInputX) (Value, error) {
 	for i := int64(0); i < size; i++ {
 		var value Value
 		value , err = in.ReadValue()
+		if err != nil {
+			return listValue, err
+		}
 		listValue.Value = append(listValue.Value, value)
 	}
 	return listValue, err
diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index ba96f7c..f798aa2 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -42,7 +42,13 @@ func (mapPack *MapPack) Read(in *DataInputX) (Pack, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapPack, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapPack, err
+		}
 		mapPack.Table[key] = value
 	}
 	return mapPack, err
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 7282ec2..92b6ad2 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -40,7 +40,13 @@ func (mapValue *MapValue) Read(in *DataInputX) (Value, error) {
 		var key string
 		var value Value
 		key, err = in.ReadString()
+		if err != nil {
+			return mapValue, err
+		}
 		value, err = in.ReadValue()
+		if err != nil {
+			return mapValue, err
+		}
 		mapValue.Table[key] = value
 	}
 	return mapValue, err
-- 
2.43.0


From 87c8046440a1ff7d483c97609461e27a456b926d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 16/46] fix: a truncated or foreign object or counter pack must
 not panic

---
 scouterx/common/netdata/objectpack.go         | 19 +++++++++++++++++--
 .../common/netdata/perfcounter_k8s_pack.go    | 11 ++++++++++-
 scouterx/common/netdata/perfcounterpack.go    | 11 ++++++++++-
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/scouterx/common/netdata/objectpack.go b/scouterx/common/netdata/objectpack.go
index 246880c..51926bd 100644
--- a/scouterx/common/netdata/objectpack.go
+++ b/scouterx/common/netdata/objectpack.go
@@ -1,6 +1,7 @@
 package netdata
 
 import (
+	"errors"
 	"strconv"
 
 	packconstants "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/constants/packconstant"
@@ -91,7 +92,14 @@ func (objectPack *ObjectPack2) Read(in *DataInputX) (Pack, error){
 	objectPack.Wakeup, err = in.ReadDecimal()
 	objectPack.Family, err = in.ReadInt8()
 	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	if err != nil {
+		return objectPack, err
+	}
+	mapValue, ok := value.(*MapValue)
+	if !ok {
+		return objectPack, errors.New("[scouter] Not a map value")
+	}
+	objectPack.Tags = mapValue
 
 	return objectPack, err
 }
@@ -106,7 +114,14 @@ func (objectPack *ObjectPack) Read(in *DataInputX) (Pack, error) {
 	objectPack.Alive, err = in.ReadBoolean()
 	objectPack.Wakeup, err = in.ReadDecimal()
 	value, err := in.ReadValue()
-	objectPack.Tags = value.(*MapValue)
+	if err != nil {
+		return objectPack, err
+	}
+	mapValue, ok := value.(*MapValue)
+	if !ok {
+		return objectPack, errors.New("[scouter] Not a map value")
+	}
+	objectPack.Tags = mapValue
 
 	return objectPack, err
 }
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index c1718da..df6526f 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -1,6 +1,8 @@
 package netdata
 
 import (
+	"errors"
+
 	packconstants "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/constants/packconstant"
 )
 
@@ -62,7 +64,14 @@ func (pack *PerfCounterK8SPack) Read(in *DataInputX) (Pack, error) {
 	pack.Timetype, err = in.ReadInt8()
 	pack.MetricLevel, err = in.ReadInt8()
 	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	if err != nil {
+		return pack, err
+	}
+	mapValue, ok := value.(*MapValue)
+	if !ok {
+		return pack, errors.New("[scouter] Not a map value")
+	}
+	pack.Data = mapValue
 	return pack, err
 }
 
diff --git a/scouterx/common/netdata/perfcounterpack.go b/scouterx/common/netdata/perfcounterpack.go
index 49145e7..60c891d 100644
--- a/scouterx/common/netdata/perfcounterpack.go
+++ b/scouterx/common/netdata/perfcounterpack.go
@@ -1,6 +1,8 @@
 package netdata
 
 import (
+	"errors"
+
 	packconstants "github.com/scouter-contrib/scouter-agent-golang/scouterx/common/constants/packconstant"
 )
 
@@ -38,7 +40,14 @@ func (pack *PerfCounterPack) Read(in *DataInputX) (Pack, error) {
 	pack.ObjName, err = in.ReadString()
 	pack.Timetype, err = in.ReadInt8()
 	value, err := in.ReadValue()
-	pack.Data = value.(*MapValue)
+	if err != nil {
+		return pack, err
+	}
+	mapValue, ok := value.(*MapValue)
+	if !ok {
+		return pack, errors.New("[scouter] Not a map value")
+	}
+	pack.Data = mapValue
 	return pack, err
 }
 
-- 
2.43.0


From e95ea2c161725a90de1e21df4db5a968d2428d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 17/46] fix: read an ip address value as the four bytes it is
 written as

---
 scouterx/common/netdata/valuecreator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/valuecreator.go b/scouterx/common/netdata/valuecreator.go
index 7328182..55a6adb 100644
--- a/scouterx/common/netdata/valuecreator.go
+++ b/scouterx/common/netdata/valuecreator.go
@@ -24,7 +24,7 @@ func CreateValue(valueType byte) Value {
 	case valueconstants.BLOB:
 		return NewBlobEmptyValue()
 	case valueconstants.IP4ADDR:
-		return NewBlobEmptyValue()
+		return NewIp4EmptyValue()
 	case valueconstants.LIST:
 		return NewListValue()
 	case valueconstants.MAP:
-- 
2.43.0


From 24341e58da452607833394d9a815e40a53301aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 18/46] fix: values put into a map must not be dropped silently

SetStatus stored nothing, because MapValue.Put ignored int.
---
 scouterx/common/netdata/mappack.go              |  2 ++
 scouterx/common/netdata/mapvalue.go             | 10 ++++++++++
 scouterx/common/netdata/perfcounter_k8s_pack.go |  7 ++++++-
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index f798aa2..79f7f21 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -84,6 +84,8 @@ func (mapPack *MapPack) Put(key string, any interface{}) {
 		mapPack.Table[key] = t
 	case float32:
 		mapPack.Table[key] = NewFloatValue(t)
+	case float64:
+		mapPack.Table[key] = NewDoubleValue(t)
 	case uint32:
 		mapPack.Table[key] = NewDecimalValue(int64(t))
 	case int:
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 92b6ad2..12fa12a 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -72,6 +72,16 @@ func (mapValue *MapValue) Put(key string, any interface{}) {
 	switch any.(type) {
 	case string:
 		mapValue.Table[key] = NewTextValue(any.(string))
+	case int:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int)))
+	case int32:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int32)))
+	case uint32:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint32)))
+	case uint64:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint64)))
+	case float64:
+		mapValue.Table[key] = NewDoubleValue(any.(float64))
 	case int64:
 		mapValue.Table[key] = NewDecimalValue(any.(int64))
 	case bool:
diff --git a/scouterx/common/netdata/perfcounter_k8s_pack.go b/scouterx/common/netdata/perfcounter_k8s_pack.go
index df6526f..9623fa1 100644
--- a/scouterx/common/netdata/perfcounter_k8s_pack.go
+++ b/scouterx/common/netdata/perfcounter_k8s_pack.go
@@ -82,6 +82,10 @@ func (pack *PerfCounterK8SPack) Put(key string, any interface{}) {
 		pack.Data.Put(key, NewDecimalValue(int64(v)))
 	case int64:
 		pack.Data.Put(key, NewDecimalValue(int64(v)))
+	case uint32:
+		pack.Data.Put(key, NewDecimalValue(int64(v)))
+	case uint64:
+		pack.Data.Put(key, NewDecimalValue(int64(v)))
 	case int:
 		pack.Data.Put(key, NewDecimalValue(int64(v)))
 	case float32:
@@ -92,7 +96,8 @@ func (pack *PerfCounterK8SPack) Put(key string, any interface{}) {
 		pack.Data.Put(key, NewTextValue(v))
 	case bool:
 		pack.Data.Put(key, NewBooleanValue(v))
-
+	default:
+		pack.Data.Put(key, any)
 	}
 
 }
-- 
2.43.0


From bbfea7292d749e60726ac6249f6035cb5692fc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 19/46] fix: text of a false boolean value

---
 scouterx/common/netdata/booleanvalue.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/booleanvalue.go b/scouterx/common/netdata/booleanvalue.go
index 20d112a..a830af2 100644
--- a/scouterx/common/netdata/booleanvalue.go
+++ b/scouterx/common/netdata/booleanvalue.go
@@ -54,5 +54,5 @@ func (booleanValue *BooleanValue) ToString() string {
 	if booleanValue.Value {
 		return "true"
 	}
-	return "fasle"
+	return "false"
 }
-- 
2.43.0


From 8e8f0282ae8d80b94a64382a5089eb6257ed4019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 20/46] fix: a dump step must be written with its own step type

---
 scouterx/common/netdata/dumpstep.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/netdata/dumpstep.go b/scouterx/common/netdata/dumpstep.go
index fcfd1e5..512b716 100644
--- a/scouterx/common/netdata/dumpstep.go
+++ b/scouterx/common/netdata/dumpstep.go
@@ -17,7 +17,7 @@ func NewDumpStep() *DumpStep {
 }
 
 func (s *DumpStep) GetStepType() byte {
-	return METHOD
+	return DUMP
 }
 
 func (s *DumpStep) Write(out *DataOutputX) error {
-- 
2.43.0


From 094b027a9e452a67d7504a9bb9ae1ef96fe1301a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 21/46] fix: flush the thread dump before its file is closed

The end of every dump was missing.
---
 scouterx/dump/dump.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index c539fe4..35a5aab 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -68,8 +68,10 @@ func heavyAllStackTrace() (string, error) {
 	if fileName != "" {
 		f, err := os.Create(fileName)
 		if err == nil {
-			w = bufio.NewWriter(f)
+			bw := bufio.NewWriter(f)
+			w = bw
 			defer f.Close()
+			defer bw.Flush()
 		} else {
 			return "", err
 		}
-- 
2.43.0


From 9643d3b3b1f23f5c4702fc93637652b4001d2ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 22/46] fix: file commands must not leave the dump folders

A name such as ../../x.pprof read or deleted any file of the host.
---
 scouterx/dump/dump.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 35a5aab..3072418 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -205,6 +205,11 @@ func getBinaryDumpPath() string {
 	return dumpPath
 }
 
+// isPlainFileName returns whether the name stays in the folder it is joined to.
+func isPlainFileName(name string) bool {
+	return name != "." && name != ".." && name == filepath.Base(name)
+}
+
 func ListDumpFiles() netdata.Pack {
 	pack := netdata.NewMapPack()
 	nameLv := netdata.NewListValue()
@@ -249,7 +254,7 @@ func ListBinaryDumpFiles() netdata.Pack {
 }
 
 func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if fileName == "" || !strings.HasSuffix(fileName, suffix) || !isPlainFileName(fileName) {
 		return
 	}
 	dumpPath := getBinaryDumpPath()
@@ -286,7 +291,7 @@ func DownloadBinaryDumpFiles(out *netdata.DataOutputX, fileName string) {
 
 func DeleteBinaryDumpFiles(fileName string) netdata.Pack {
 	pack := netdata.NewMapPack()
-	if fileName == "" || !strings.HasSuffix(fileName, suffix){
+	if fileName == "" || !strings.HasSuffix(fileName, suffix) || !isPlainFileName(fileName) {
 		pack.Put("success", netdata.NewBooleanValue(false))
 		pack.Put("msg", "no fileName")
 		return pack
@@ -311,6 +316,9 @@ func StreamDumpFileContents(param netdata.Pack, out *netdata.DataOutputX) {
 		return
 	}
 	name := p.GetString("name")
+	if !isPlainFileName(name) {
+		return
+	}
 	dumpFile := filepath.Join(getDumpPath(), name)
 
 	data, err := os.Open(dumpFile)
-- 
2.43.0


From d3613f0083e40639d9d2ef1634bca43691785e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 23/46] fix: listing dump files while one of them disappears

Walk reports such a file with a nil info, which was dereferenced.
---
 scouterx/dump/dump.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 3072418..4d9050c 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -222,6 +222,9 @@ func ListDumpFiles() netdata.Pack {
 	dumpPath := getDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
+		if err != nil || info == nil {
+			return nil
+		}
 		if !info.IsDir() {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
@@ -243,6 +246,9 @@ func ListBinaryDumpFiles() netdata.Pack {
 	dumpPath := getBinaryDumpPath()
 
 	filepath.Walk(dumpPath, func(path string, info os.FileInfo, err error) error {
+		if err != nil || info == nil {
+			return nil
+		}
 		if !info.IsDir() && strings.HasSuffix(info.Name(), suffix) {
 			nameLv.AddString(info.Name())
 			sizeLv.AddInt64(info.Size())
-- 
2.43.0


From 74a198c6dfa471567bc6e1dd199a5285afc5ed28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 24/46] fix: overlapping mutex and block profiles

The first one to end switched block profiling off for the other, and the last
one to end restored the mutex rate of the other, so that profiling was left
on in the host.
---
 scouterx/dump/dump.go | 50 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 46 insertions(+), 4 deletions(-)

diff --git a/scouterx/dump/dump.go b/scouterx/dump/dump.go
index 4d9050c..b569501 100644
--- a/scouterx/dump/dump.go
+++ b/scouterx/dump/dump.go
@@ -15,11 +15,53 @@ import (
 	"runtime"
 	"runtime/pprof"
 	"strings"
+	"sync"
 	"time"
 )
 
 const suffix = "pprof"
 
+// profiling windows may overlap: the last one which ends restores the rate.
+var windowLock sync.Mutex
+var blockWindows int
+var mutexWindows int
+var mutexFraction int
+
+func beginBlockProfile(rate int) {
+	windowLock.Lock()
+	defer windowLock.Unlock()
+	blockWindows++
+	runtime.SetBlockProfileRate(rate)
+}
+
+func endBlockProfile() {
+	windowLock.Lock()
+	defer windowLock.Unlock()
+	blockWindows--
+	if blockWindows == 0 {
+		runtime.SetBlockProfileRate(-1)
+	}
+}
+
+func beginMutexProfile(rate int) {
+	windowLock.Lock()
+	defer windowLock.Unlock()
+	old := runtime.SetMutexProfileFraction(rate)
+	if mutexWindows == 0 {
+		mutexFraction = old
+	}
+	mutexWindows++
+}
+
+func endMutexProfile() {
+	windowLock.Lock()
+	defer windowLock.Unlock()
+	mutexWindows--
+	if mutexWindows == 0 {
+		runtime.SetMutexProfileFraction(mutexFraction)
+	}
+}
+
 func StackTrace(count int) string {
 	// fine, line
 	pcLen := count
@@ -126,8 +168,8 @@ func ProfileBlockBinaryDump(sec, rate int) netdata.Pack {
 }
 
 func profileBlock(fileName string, sec, rate, level int) {
-	runtime.SetBlockProfileRate(rate)
-	defer runtime.SetBlockProfileRate(-1)
+	beginBlockProfile(rate)
+	defer endBlockProfile()
 	time.Sleep(time.Duration(sec) * time.Second)
 
 	var w *bufio.Writer
@@ -167,8 +209,8 @@ func ProfileMutexBinaryDump(sec, rate int) {
 
 
 func profileMutex(fileName string, sec, rate, level int) {
-	old := runtime.SetMutexProfileFraction(rate)
-	defer runtime.SetMutexProfileFraction(old)
+	beginMutexProfile(rate)
+	defer endMutexProfile()
 	time.Sleep(time.Duration(sec) * time.Second)
 
 	var w *bufio.Writer
-- 
2.43.0


From 2e43767e2a7551b041db7fd4817f661a2365cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 25/46] fix: environment variables in the configuration

A value was cut at its second "=" and an entry without "=" ended the host with
an index out of range.
---
 scouterx/conf/configure.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index df1d3e1..82db1cf 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -227,7 +227,10 @@ func (conf *Configure) Refresh() {
 	if info == nil || info.ModTime().After(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
-			pair := strings.Split(e, "=")
+			pair := strings.SplitN(e, "=", 2)
+			if len(pair) != 2 {
+				continue
+			}
 			props.Set(pair[0], pair[1])
 		}
 
-- 
2.43.0


From 4fa09f251040a8e5cc9fd79db94ac7ceaf9a2cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 26/46] fix: a circular reference between environment and
 configuration file

Reading such a property called log.Fatal in the host.
---
 scouterx/conf/configure.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 82db1cf..9d20c48 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -246,7 +246,7 @@ func (conf *Configure) Refresh() {
 			}
 		}
 		if fileProps != nil {
-			props.Merge(fileProps)
+			merge(props, fileProps)
 		}
 		props = props.FilterFunc(func (k, v string) bool {
 			return v != ""
@@ -262,6 +262,18 @@ func (conf *Configure) Refresh() {
 	}
 }
 
+// merge lets the file settings replace the environment's. Properties.Merge does not check the result:
+// a circular reference between both would terminate the process when it is read.
+func merge(props, fileProps *properties.Properties) {
+	for _, key := range fileProps.Keys() {
+		props.Delete(key)
+	}
+	values := fileProps.Map()
+	for _, key := range fileProps.Keys() {
+		props.Set(key, values[key])
+	}
+}
+
 func GetConfigureDescMap() *linkedhashmap.Map {
 	descSync.RLock()
 	defer descSync.RUnlock()
-- 
2.43.0


From 8f7b2a2de59b7abdd28a3f2c78fe356a0e8493f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 27/46] fix: reload a configuration file replaced by an older
 one

A restored backup, or a file deleted and put back, was never read.
---
 scouterx/conf/configure.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 9d20c48..94a40a4 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -224,7 +224,7 @@ func (conf *Configure) Refresh() {
 			return
 		}
 	}
-	if info == nil || info.ModTime().After(conf.lastModified) {
+	if info == nil || !info.ModTime().Equal(conf.lastModified) {
 		props := properties.NewProperties()
 		for _, e := range os.Environ() {
 			pair := strings.SplitN(e, "=", 2)
@@ -255,6 +255,8 @@ func (conf *Configure) Refresh() {
 		conf.addToConf(props)
 		if info != nil {
 			conf.lastModified = info.ModTime()
+		} else {
+			conf.lastModified = time.Time{}
 		}
 
 		//last
-- 
2.43.0


From 299b75a2f830e911b3c07430c7d23ecac80db1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 28/46] fix: saving the configuration must not lose it

The file was truncated before it was written: a crash or a full disk during
a remote save left an empty or partial configuration.
---
 scouterx/conf/exthandler.go | 41 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/scouterx/conf/exthandler.go b/scouterx/conf/exthandler.go
index f7a17d5..fdb61b8 100644
--- a/scouterx/conf/exthandler.go
+++ b/scouterx/conf/exthandler.go
@@ -2,6 +2,8 @@ package conf
 
 import (
 	"io/ioutil"
+	"os"
+	"path/filepath"
 )
 
 func LoadConfigText() string {
@@ -15,7 +17,11 @@ func LoadConfigText() string {
 }
 
 func SaveConfigText(text string) bool {
-	err := ioutil.WriteFile(getConfFilePath(), []byte(text), 0644)
+	filePath := getConfFilePath()
+	if done, err := replaceFile(filePath, []byte(text)); done {
+		return err == nil
+	}
+	err := ioutil.WriteFile(filePath, []byte(text), 0644)
 	if err != nil {
 		//TODO logging
 		return false
@@ -23,3 +29,36 @@ func SaveConfigText(text string) bool {
 	return true
 }
 
+// replaceFile writes a new file and renames it, so that a crash or a full disk leaves the previous file.
+// It returns false if the folder does not allow that.
+func replaceFile(filePath string, data []byte) (done bool, err error) {
+	if target, err := filepath.EvalSymlinks(filePath); err == nil {
+		filePath = target
+	}
+	mode := os.FileMode(0644)
+	if info, err := os.Stat(filePath); err == nil {
+		mode = info.Mode().Perm()
+	}
+	tmpPath := filePath + ".tmp"
+	f, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, mode)
+	if err != nil {
+		return false, err
+	}
+	_, err = f.Write(data)
+	if err == nil {
+		err = f.Sync()
+	}
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		os.Remove(tmpPath)
+		return true, err
+	}
+	if err = os.Rename(tmpPath, filePath); err != nil {
+		os.Remove(tmpPath)
+		return false, err
+	}
+	return true, nil
+}
+
-- 
2.43.0


From ae54bafe38b713e9e2f1afacc7c5c08edd1f9413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 29/46] fix: pattern change while the sampler is created

A change between the reading of the patterns and the registration was not
noticed until the next change.
---
 scouterx/strace/xlogsampler.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scouterx/strace/xlogsampler.go b/scouterx/strace/xlogsampler.go
index 4658988..3e9178e 100644
--- a/scouterx/strace/xlogsampler.go
+++ b/scouterx/strace/xlogsampler.go
@@ -41,6 +41,7 @@ func GetXlogSampler() *XlogSampler {
 		xlogSampler.sampling3PatternMatcher = util.NewCommaSeparatedChainedStrMatcher(xlogSampler.currentSampling3ServicePatterns)
 
 		conf.AddToConfObserver("XlogSampler", xlogSampler)
+		xlogSampler.Run()
 	})
 	return xlogSampler
 }
-- 
2.43.0


From fe0a436d9ccf59115059c441f0404ee1bb8e9168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 30/46] fix: stuck service alert message had a missing argument

---
 scouterx/strace/tctxmanager/tctxmanager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/strace/tctxmanager/tctxmanager.go b/scouterx/strace/tctxmanager/tctxmanager.go
index 1c0dd7d..bcfee5a 100644
--- a/scouterx/strace/tctxmanager/tctxmanager.go
+++ b/scouterx/strace/tctxmanager/tctxmanager.go
@@ -96,7 +96,7 @@ func GetActiveCount() [3]int64 {
 			if fEndStuckServiceForcibly != nil {
 				fEndStuckServiceForcibly(tctx)
 			}
-			message := fmt.Sprintf("service: %s, elapsed: %d, goId: %d, tctxGoId: %d", tctx.ServiceName, elapsed, tctx.Goid)
+			message := fmt.Sprintf("service: %s, elapsed: %d, tctxGoId: %d", tctx.ServiceName, elapsed, tctx.Goid)
 			if ac.StuckServiceAlertEnabled {
 				netio.SendAlert(netdata.AlertError, "STUCK_SERVICE", message)
 			} else {
-- 
2.43.0


From d35d93b6557e32fd206bf9ce8f5a8c5981c9f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 31/46] fix: agents started in the same second generated the
 same ids

---
 scouterx/common/util/keygen/keygen.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/keygen/keygen.go b/scouterx/common/util/keygen/keygen.go
index be95773..d6ca825 100644
--- a/scouterx/common/util/keygen/keygen.go
+++ b/scouterx/common/util/keygen/keygen.go
@@ -22,7 +22,7 @@ func getInstance() *KeyGen {
 	once.Do(
 		func() {
 			keygen = new(KeyGen)
-			keygen.random = rand.New(rand.NewSource(time.Now().Unix()))
+			keygen.random = rand.New(rand.NewSource(time.Now().UnixNano()))
 
 		})
 	return keygen
-- 
2.43.0


From facefd3c6f35c30cb2860b911046e59595856be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 32/46] fix: text of the smallest id had a second sign

---
 scouterx/common/util/hexautil.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/common/util/hexautil.go b/scouterx/common/util/hexautil.go
index ee5a301..553a48d 100644
--- a/scouterx/common/util/hexautil.go
+++ b/scouterx/common/util/hexautil.go
@@ -8,7 +8,7 @@ const xminus = "z"
 func IntToXlogString32(num int64) string {
 	minus := num < 0
 	if minus {
-		return xminus + strconv.FormatInt(-num, 32)
+		return xminus + strconv.FormatUint(uint64(-num), 32)
 	} else {
 		return xplus + strconv.FormatInt(num, 32)
 	}
-- 
2.43.0


From 1ee53bee28a3e9e2465b287eb95f9b0e61fab5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 33/46] fix: changing or repairing the collector address while
 packs are sent

The reload closed the socket under a writer, which lost the packs being
written, a collector name which could not be resolved at start was never tried
again, and tracing object packs without a socket dereferenced nil.
---
 scouterx/netio/udpsender/udpsender.go | 32 ++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/scouterx/netio/udpsender/udpsender.go b/scouterx/netio/udpsender/udpsender.go
index 3702429..9318f7c 100644
--- a/scouterx/netio/udpsender/udpsender.go
+++ b/scouterx/netio/udpsender/udpsender.go
@@ -24,6 +24,7 @@ type UDPSender struct {
 	udpChannel chan []byte
 	running    bool
 	udpClient  *udpclient.UDPClient
+	clientLock sync.RWMutex
 }
 
 var udpSender *UDPSender
@@ -48,16 +49,18 @@ func GetInstance() *UDPSender {
 func reloadUdpSender() {
 	for {
 		time.Sleep(1000 * time.Millisecond)
-		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || udpMaxBytes != ac.UDPMaxBytes {
+		if serverAddr != ac.NetCollectorIP || udpServerPort != ac.NetCollectorUDPPort || udpMaxBytes != ac.UDPMaxBytes || udpSender.udpClient.Conn == nil {
 			serverAddr = ac.NetCollectorIP
 			udpServerPort = ac.NetCollectorUDPPort
 			udpMaxBytes = ac.UDPMaxBytes
 
 			udpSender.running = true
-			prevClient := udpSender.udpClient
 			udpClient := udpclient.New(serverAddr, udpServerPort)
 			udpClient.SetUDPMaxBytes(udpMaxBytes)
+			udpSender.clientLock.Lock()
+			prevClient := udpSender.udpClient
 			udpSender.udpClient = udpClient
+			udpSender.clientLock.Unlock()
 
 			if prevClient.Conn != nil {
 				prevClient.Conn.Close()
@@ -79,6 +82,19 @@ func (udpSender *UDPSender) AddPack(pack netdata.Pack) bool {
 	}
 }
 
+// writeBuffer keeps the client open until the data is written.
+func (udpSender *UDPSender) writeBuffer(buffer []byte) {
+	udpSender.clientLock.RLock()
+	defer udpSender.clientLock.RUnlock()
+	udpSender.udpClient.WriteBuffer(buffer)
+}
+
+func (udpSender *UDPSender) writeBufferList(bufferList *list.List) {
+	udpSender.clientLock.RLock()
+	defer udpSender.clientLock.RUnlock()
+	udpSender.udpClient.WriteBufferList(bufferList)
+}
+
 func (udpSender *UDPSender) AddBuffer(buffer []byte) {
 	select {
 	case udpSender.udpChannel <- buffer:
@@ -90,12 +106,12 @@ func (udpSender *UDPSender) AddBuffer(buffer []byte) {
 func (udpSender *UDPSender) SendPackDirect(pack netdata.Pack) {
 	if ac.TraceObjSend {
 		if p, ok := pack.(*netdata.ObjectPack); ok {
-			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s, pack:%s", udpSender.udpClient.Conn.RemoteAddr(), p.ToString())
+			logger.Info.Printf("[scouter] SendPackDirect[ObjPack], to:%s:%d, pack:%s", serverAddr, udpServerPort, p.ToString())
 		}
 	}
 	writePack, _ := netdata.NewDataOutputX(nil).WritePack(pack)
 	bytes := writePack.Bytes()
-	go udpSender.udpClient.WriteBuffer(bytes)
+	go udpSender.writeBuffer(bytes)
 }
 
 func (udpSender *UDPSender) SendDirect(bufferList *list.List) {
@@ -115,7 +131,7 @@ func (udpSender *UDPSender) run() {
 			time.Sleep(100 * time.Millisecond)
 		case 1:
 			p := <-udpSender.udpChannel
-			udpSender.udpClient.WriteBuffer(p)
+			udpSender.writeBuffer(p)
 		default:
 			udpSender.send(size)
 		}
@@ -140,7 +156,7 @@ func (udpSender *UDPSender) send(size int) {
 		bytes += len(buffer)
 		bufferList.PushBack(buffer)
 	}
-	udpSender.udpClient.WriteBufferList(bufferList)
+	udpSender.writeBufferList(bufferList)
 
 }
 
@@ -148,8 +164,8 @@ func (udpSender *UDPSender) sendList(bufferList *list.List) {
 	if bufferList.Len() == 0 {
 		return
 	} else if bufferList.Len() == 1 {
-		udpSender.udpClient.WriteBuffer(bufferList.Front().Value.([]byte))
+		udpSender.writeBuffer(bufferList.Front().Value.([]byte))
 	} else {
-		udpSender.udpClient.WriteBufferList(bufferList)
+		udpSender.writeBufferList(bufferList)
 	}
 }
-- 
2.43.0


From d793fcf10fe8c455c23736b914c94e35d27a6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 34/46] fix: know the service name before the first profile
 step, which may be sent at once

---
 scouterx/strace/tracemain.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index ca26f1c..edac926 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -346,10 +346,10 @@ func startService(ctx context.Context, serviceName, remoteAddr string) (context.
 
 	tctx.Gxid = tctx.Txid
 	tctx.Goid = common.Goid()
-	tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("goroutine:%d", tctx.Goid), 0))
-
 	tctx.ServiceName = serviceName
 	tctx.ServiceHash = netio.SendServiceName(serviceName)
+	tctx.Profile.Add(netdata.NewMessageStep(fmt.Sprintf("goroutine:%d", tctx.Goid), 0))
+
 	tctx.RemoteIp = normalizeIp(remoteAddr)
 	return newCtx, tctx
 }
-- 
2.43.0


From 214f6e0dcad7ecddac627694d05d18dd874f205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:19 +0000
Subject: [PATCH 35/46] fix: leave a collector whose address changed while the
 connection was made

---
 scouterx/netio/tcpclient/tcpclient.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index 356ffc6..bb2d78d 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -71,16 +71,13 @@ func (c *TCPClient) Process() error {
 	out := netdata.NewDataOutputX(c.conn)
 	defer c.conn.Close()
 
-	serverAddr := ac.NetCollectorIP
-	serverPort := ac.NetCollectorTCPPort
-
 	_, err := out.WriteInt32(int32(netcafeconstant.TCP_AGENT_V2))
 	_, err = out.WriteInt32(c.objHash)
 	if err != nil {
 		return err
 	}
 
-	for c.objHash == ac.ObjHash && serverAddr == ac.NetCollectorIP && serverPort == ac.NetCollectorTCPPort {
+	for c.objHash == ac.ObjHash && c.host == ac.NetCollectorIP && c.port == ac.NetCollectorTCPPort {
 		err := c.conn.SetReadDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))
 		if err != nil {
 			return err
-- 
2.43.0


From 5a8deab36a3b060e6dd770f0b3158f12a76db206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:58 +0000
Subject: [PATCH 36/46] fix: read the size of a cache under its lock

---
 scouterx/common/structure/cachemap/cachemap.go   | 6 +++---
 scouterx/common/structure/cachemap2/cachemap2.go | 6 +++---
 scouterx/common/structure/cacheset/cacheset.go   | 2 ++
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/scouterx/common/structure/cachemap/cachemap.go b/scouterx/common/structure/cachemap/cachemap.go
index 979c27c..5247457 100644
--- a/scouterx/common/structure/cachemap/cachemap.go
+++ b/scouterx/common/structure/cachemap/cachemap.go
@@ -86,12 +86,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 }
 
 func (m *CacheMap) Empty() bool {
-	lock.Lock()
-	defer lock.Unlock()
 	return m.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.table.Size()
 }
 
@@ -102,5 +102,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.table.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cachemap2/cachemap2.go b/scouterx/common/structure/cachemap2/cachemap2.go
index 931c215..c5777e0 100644
--- a/scouterx/common/structure/cachemap2/cachemap2.go
+++ b/scouterx/common/structure/cachemap2/cachemap2.go
@@ -105,12 +105,12 @@ func (m *CacheMap) Get(key interface{}) interface{} {
 }
 
 func (m *CacheMap) Empty() bool {
-	lock.Lock()
-	defer lock.Unlock()
 	return m.Size() == 0
 }
 
 func (m *CacheMap) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return m.ordering.Size()
 }
 
@@ -123,5 +123,5 @@ func (m *CacheMap) Clear() {
 }
 
 func (m *CacheMap) String() string {
-	return "CacheMap[" + strconv.Itoa(m.ordering.Size()) + "]"
+	return "CacheMap[" + strconv.Itoa(m.Size()) + "]"
 }
diff --git a/scouterx/common/structure/cacheset/cacheset.go b/scouterx/common/structure/cacheset/cacheset.go
index 607aebb..af0669a 100644
--- a/scouterx/common/structure/cacheset/cacheset.go
+++ b/scouterx/common/structure/cacheset/cacheset.go
@@ -62,6 +62,8 @@ func (set *CacheSet) Empty() bool {
 }
 
 func (set *CacheSet) Size() int {
+	lock.RLock()
+	defer lock.RUnlock()
 	return set.table.Size()
 }
 
-- 
2.43.0


From 366a0b537f1bb72e89209c3f9d2c062d3d02c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 37/46] fix: inheriting from no service must not lose the
 host's context

---
 scouterx/strace/tracemain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index edac926..75a5b01 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -243,6 +243,9 @@ func StartNewInheritanceService(ctx context.Context, parentTctx *netio.TraceCont
 	if ctx == nil {
 		ctx = context.Background()
 	}
+	if parentTctx == nil {
+		return ctx, nil
+	}
 	newCtx, newTctx = startService(ctx, parentTctx.ServiceName, parentTctx.RemoteIp)
 	newTctx = inheritTctx(newTctx, parentTctx)
 
-- 
2.43.0


From 9c590de2478f5a3d7e27ddd3374c9cd218ebc2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:28 +0000
Subject: [PATCH 38/46] fix: load the configuration file again after it was
 missing during a reload

---
 scouterx/conf/configure.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scouterx/conf/configure.go b/scouterx/conf/configure.go
index 94a40a4..57f3aea 100644
--- a/scouterx/conf/configure.go
+++ b/scouterx/conf/configure.go
@@ -253,7 +253,7 @@ func (conf *Configure) Refresh() {
 		})
 
 		conf.addToConf(props)
-		if info != nil {
+		if info != nil && fileProps != nil {
 			conf.lastModified = info.ModTime()
 		} else {
 			conf.lastModified = time.Time{}
-- 
2.43.0


From dc9429738c1e821d44f9e1a66855a214781087b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:59 +0000
Subject: [PATCH 39/46] fix: small and unsigned integers put into a map must
 not be dropped silently

---
 scouterx/common/netdata/mappack.go  |  8 ++++++++
 scouterx/common/netdata/mapvalue.go | 10 ++++++++++
 2 files changed, 18 insertions(+)

diff --git a/scouterx/common/netdata/mappack.go b/scouterx/common/netdata/mappack.go
index 79f7f21..095bba5 100644
--- a/scouterx/common/netdata/mappack.go
+++ b/scouterx/common/netdata/mappack.go
@@ -92,6 +92,14 @@ func (mapPack *MapPack) Put(key string, any interface{}) {
 		mapPack.Table[key] = NewDecimalValue(int64(t))
 	case uint:
 		mapPack.Table[key] = NewDecimalValue(int64(t))
+	case int8:
+		mapPack.Table[key] = NewDecimalValue(int64(t))
+	case int16:
+		mapPack.Table[key] = NewDecimalValue(int64(t))
+	case uint8:
+		mapPack.Table[key] = NewDecimalValue(int64(t))
+	case uint16:
+		mapPack.Table[key] = NewDecimalValue(int64(t))
 	case uint64:
 		mapPack.Table[key] = NewDecimalValue(int64(t))
 	}
diff --git a/scouterx/common/netdata/mapvalue.go b/scouterx/common/netdata/mapvalue.go
index 12fa12a..0a83f2c 100644
--- a/scouterx/common/netdata/mapvalue.go
+++ b/scouterx/common/netdata/mapvalue.go
@@ -74,6 +74,16 @@ func (mapValue *MapValue) Put(key string, any interface{}) {
 		mapValue.Table[key] = NewTextValue(any.(string))
 	case int:
 		mapValue.Table[key] = NewDecimalValue(int64(any.(int)))
+	case int8:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int8)))
+	case int16:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(int16)))
+	case uint:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint)))
+	case uint8:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint8)))
+	case uint16:
+		mapValue.Table[key] = NewDecimalValue(int64(any.(uint16)))
 	case int32:
 		mapValue.Table[key] = NewDecimalValue(int64(any.(int32)))
 	case uint32:
-- 
2.43.0


From c4a88ad430d9d582c2c3fc4412e7c4d6897fba40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 40/46] fix: give up a collector that stops reading its answers

---
 scouterx/netio/tcpclient/tcpclient.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/scouterx/netio/tcpclient/tcpclient.go b/scouterx/netio/tcpclient/tcpclient.go
index bb2d78d..d417e4b 100644
--- a/scouterx/netio/tcpclient/tcpclient.go
+++ b/scouterx/netio/tcpclient/tcpclient.go
@@ -108,10 +108,26 @@ func (c *TCPClient) Process() error {
 			out0.WriteIntBytes(packBytes)
 		}
 		out0.WriteUInt8(tcpflag.NoNEXT)
-		err = out.Write(out0.Bytes())
+		err = c.write(out0.Bytes())
 		if err != nil {
 			return err
 		}
 	}
 	return err
 }
+
+// write sends b in pieces, a collector that stops reading is given up after the timeout.
+func (c *TCPClient) write(b []byte) error {
+	for len(b) > 0 {
+		n := min(len(b), 65536)
+		err := c.conn.SetWriteDeadline(time.Now().Add(time.Duration(ac.NetCollectorTcpSoTimeoutMs) * time.Millisecond))
+		if err != nil {
+			return err
+		}
+		if _, err = c.conn.Write(b[:n]); err != nil {
+			return err
+		}
+		b = b[n:]
+	}
+	return nil
+}
-- 
2.43.0


From 5ac493803f289caf09e17dca7202ef1e0a9b592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 41/46] fix: a save command without a text must not erase the
 configuration

---
 scouterx/netio/tcpclient/handlers.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/netio/tcpclient/handlers.go b/scouterx/netio/tcpclient/handlers.go
index a39eb60..5f08cb7 100644
--- a/scouterx/netio/tcpclient/handlers.go
+++ b/scouterx/netio/tcpclient/handlers.go
@@ -303,6 +303,9 @@ func saveConfig(pack netdata.Pack) *netdata.MapPack {
 	result.Put("result", false)
 
 	if p, ok := pack.(*netdata.MapPack); ok {
+		if _, ok := p.Table["setConfig"].(*netdata.TextValue); !ok {
+			return result
+		}
 		text := p.GetString("setConfig")
 		success := conf.SaveConfigText(text)
 		if success {
-- 
2.43.0


From 06be1a277fbee74ac2f8a064281776802d191aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:35 +0000
Subject: [PATCH 42/46] fix: keep the order of the packs of a list when one
 needs several datagrams

---
 scouterx/netio/udpclient/udpclient.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scouterx/netio/udpclient/udpclient.go b/scouterx/netio/udpclient/udpclient.go
index 46021d6..b7ce0ed 100644
--- a/scouterx/netio/udpclient/udpclient.go
+++ b/scouterx/netio/udpclient/udpclient.go
@@ -130,6 +130,11 @@ func (udpClient *UDPClient) WriteBufferList(bufferList *list.List) bool {
 		b := buffer.Value.([]byte)
 		buffLen := len(b)
 		if buffLen > udpClient.udpMaxBytes {
+			if outCount > 0 {
+				udpClient.sendBufferList(outCount, out.Bytes())
+				out = netdata.NewDataOutputX(nil)
+				outCount = 0
+			}
 			udpClient.writeMTU(b, udpClient.udpMaxBytes)
 		} else if buffLen+ int(out.GetWriteSize()) > udpClient.udpMaxBytes {
 			udpClient.sendBufferList(outCount, out.Bytes())
-- 
2.43.0


From f1c09739569a8586856dd6d62bff70fd7f07d6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:21 +0000
Subject: [PATCH 43/46] fix: name the object before records and alerts refer to
 it

---
 scouterx/netio/dataproxy.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scouterx/netio/dataproxy.go b/scouterx/netio/dataproxy.go
index e448cc1..5122077 100644
--- a/scouterx/netio/dataproxy.go
+++ b/scouterx/netio/dataproxy.go
@@ -175,7 +175,7 @@ func SendAlert(level netdata.AlertLevel, title, message string) {
 	}
 	pack := netdata.NewAlertPack()
 	pack.ObjType = ac.ObjType
-	pack.ObjHash = ac.ObjHash
+	pack.ObjHash = SendObjName(ac.ObjName)
 	pack.Level = level
 	pack.Title = title
 	pack.Message = message
@@ -229,7 +229,7 @@ func SendStackElement(name string) int32 {
 }
 
 func SendXlog(pack *netdata.XlogPack) {
-	pack.ObjHash = ac.ObjHash
+	pack.ObjHash = SendObjName(ac.ObjName)
 	udpsender.GetInstance().SendPackDirect(pack)
 }
 
@@ -262,7 +262,7 @@ func sendProfile0(steps []netdata.Step, tctx *TraceContext) {
 
 	pack := netdata.NewXlogProfilePack()
 	pack.Txid = tctx.Txid
-	pack.ObjHash = ac.ObjHash
+	pack.ObjHash = SendObjName(ac.ObjName)
 	pack.Profile = netdata.StepsToBytes(steps)
 	pack.Service = tctx.ServiceHash
 	pack.Elapsed = int32(time.Now().Sub(tctx.StartTime) / time.Millisecond)
-- 
2.43.0


From 3e032f2c3d9bec26a728d87bba852b7a2df15f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:01 +0000
Subject: [PATCH 44/46] fix: replace propagation headers a request already
 carries

---
 scouterx/strace/tracemain.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 75a5b01..fd22e5e 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -574,10 +574,10 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		tctx.Gxid = tctx.Txid
 	}
 	if req != nil {
-		req.Header.Add(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
-		req.Header.Add(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
-		req.Header.Add(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-		req.Header.Add(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
+		req.Header.Set(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
+		req.Header.Set(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
+		req.Header.Set(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
+		req.Header.Set(interserviceCallerObjHeaderKey, strconv.FormatInt(int64(ac.ObjHash), 10))
 	}
 
 	return step
-- 
2.43.0


From f7d30108fdd41c58e021472a521dcc25c14e09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:02 +0000
Subject: [PATCH 45/46] fix: record a propagated call of a request without a
 header map

---
 scouterx/strace/tracemain.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index fd22e5e..74211d5 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -574,6 +574,9 @@ func StartApiCallWithPropagation(ctx context.Context, req *http.Request, apiCall
 		tctx.Gxid = tctx.Txid
 	}
 	if req != nil {
+		if req.Header == nil {
+			req.Header = make(http.Header)
+		}
 		req.Header.Set(interserviceGxidHeaderKey, util.IntToXlogString32(tctx.Gxid))
 		req.Header.Set(interserviceCallerHeaderKey, util.IntToXlogString32(tctx.Txid))
 		req.Header.Set(interserviceCalleeHeaderKey, util.IntToXlogString32(step.Txid))
-- 
2.43.0


From b70c77162e2463680b2759c9fa7c4fde9e041ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 46/46] fix: count concurrent calls of one service

---
 scouterx/strace/tracemain.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scouterx/strace/tracemain.go b/scouterx/strace/tracemain.go
index 74211d5..e9d7216 100644
--- a/scouterx/strace/tracemain.go
+++ b/scouterx/strace/tracemain.go
@@ -16,6 +16,7 @@ import (
 	"runtime"
 	"strconv"
 	"strings"
+	"sync/atomic"
 	"time"
 )
 
@@ -612,8 +613,8 @@ func EndApiCall(ctx context.Context, step *netdata.ApiCallStep, err error) {
 		return
 	}
 	step.Elapsed = util.MillisToNow(tctx.StartTime) - step.StartTime
-	tctx.ApicallCount++
-	tctx.ApicallTime += step.Elapsed
+	atomic.AddInt32(&tctx.ApicallCount, 1)
+	atomic.AddInt32(&tctx.ApicallTime, step.Elapsed)
 	if err != nil {
 		step.Error = netio.SendError(err.Error())
 		if tctx.Error == 0 {
-- 
2.43.0

