From 5b164203c780a027d85e155bc61cb63276e224bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 01/27] fix: LoadConfig reports unparsable and unsupported
 documents instead of installing an empty configuration

---
 internal/logger_manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index ac1dfa4..abf2702 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -121,6 +121,9 @@ func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
 	} else if ext == "json" {
 		err = json.Unmarshal(bs, cfg)
 	}
+	if err != nil {
+		return err
+	}
 
 	return m.setConfig(cfg)
 }
-- 
2.43.0


From 0c2f90c369e3897f442e9282fff9225866a95892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 02/27] fix: LoadConfigFile no longer panics on a file name
 without extension

---
 internal/logger_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index abf2702..a88ab1c 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -107,8 +107,8 @@ func (m *defManager) LoadConfigFile(file string) error {
 	if err != nil {
 		return err
 	}
-	ext := path.Ext(file)
-	return m.LoadConfig(bs, ext[1:])
+	ext := strings.TrimPrefix(path.Ext(file), ".")
+	return m.LoadConfig(bs, ext)
 }
 
 func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
-- 
2.43.0


From fe67ba97052e4331ed827d65d6f1ace5ab0ce97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:18 +0000
Subject: [PATCH 03/27] fix: a configuration with two loggers of the same name
 is rejected

---
 internal/logger_manager.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index a88ab1c..1a6d898 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -173,6 +173,7 @@ func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 			err = fmt.Errorf("duplication logger[%s] config", l.Name)
 			return
 		}
+		loggers[l.Name] = l
 
 		for _, outputName := range l.OutputNames {
 			if _, ok := outputs[outputName]; !ok {
-- 
2.43.0


From 01949892592ea62a15a5839680380353c72094f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:19 +0000
Subject: [PATCH 04/27] fix: size limits with a unit suffix are parsed instead
 of being replaced by a default

---
 internal/output_rolling.go | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index 2616a44..d66d379 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"io"
+	"math"
 	"os"
 	"strconv"
 	"strings"
@@ -74,30 +75,22 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 
 func getMaxSize(str string) int64 {
 	if strings.HasSuffix(str, "K") {
-		size, _ := strconv.Atoi(str)
-		if size <= 0 {
-			size = 10 * 1024
-		}
-		return int64(size * 1024)
+		return parseSize(strings.TrimSuffix(str, "K"), 1024, 10*1024)
 	} else if strings.HasSuffix(str, "M") {
-		size, _ := strconv.Atoi(str)
-		if size <= 0 {
-			size = 10
-		}
-		return int64(size * 1024 * 1024)
+		return parseSize(strings.TrimSuffix(str, "M"), 1024*1024, 10)
 	} else if strings.HasSuffix(str, "G") {
-		size, _ := strconv.Atoi(str)
-		if size <= 0 {
-			size = 1
-		}
-		return int64(size * 1024 * 1024 * 1024)
+		return parseSize(strings.TrimSuffix(str, "G"), 1024*1024*1024, 1)
 	}
+	return parseSize(str, 1, 10*1024*1024)
+}
 
-	size, _ := strconv.Atoi(str)
-	if size <= 0 {
-		size = 10 * 1024 * 1024
+// parseSize returns the size in bytes of str units, or of def units when str is no usable number.
+func parseSize(str string, unit int64, def int64) int64 {
+	size, err := strconv.ParseInt(str, 10, 64)
+	if err != nil || size <= 0 || size > math.MaxInt64/unit {
+		size = def
 	}
-	return int64(size)
+	return size * unit
 }
 
 func getMaxRolls(str string) int {
-- 
2.43.0


From 1387d04a38d367c298cb5a61f01017c7b890bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 05/27] fix: backups of a configured rolling output can be
 archived, the archive path is a directory

---
 internal/output_rolling.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/output_rolling.go b/internal/output_rolling.go
index d66d379..b16042a 100644
--- a/internal/output_rolling.go
+++ b/internal/output_rolling.go
@@ -28,6 +28,8 @@ func NewRollingOutput(cfg api.CfgOutput) (o api.Output, err error) {
 	rw := newRollingFileWriter(fpath, "")
 
 	rw.archiveType = rollingArchiveNone
+	// archivePath is the directory of the log, one archive is made per backup
+	rw.archiveExploded = true
 	switch cfg["archive"] {
 	case "zip":
 		rw.archiveType = rollingArchiveZip
-- 
2.43.0


From 2af195267fff97742cb8925b6b0e7d915cd33b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:20 +0000
Subject: [PATCH 06/27] fix: a backup that could not be archived is not deleted

---
 internal/output_rollingwriter.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index a6e8284..1633f87 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -423,16 +423,24 @@ func (rw *rollingFileWriter) deleteOldRolls(history []string) error {
 
 			// Archive logs
 			for i := 0; i < rollsToDelete; i++ {
-				rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType])
+				if err := rw.archiveExplodedLogs(history[i], compressionTypes[rw.archiveType]); err != nil {
+					// Keep this log and the following ones, the next roll tries again.
+					reportInternalError(err)
+					rollsToDelete = i
+				}
 			}
 		} else {
 			os.MkdirAll(filepath.Dir(rw.archivePath), rw.dirPerm)
-			rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history)
+			if err := rw.archiveUnexplodedLogs(compressionTypes[rw.archiveType], rollsToDelete, history); err != nil {
+				// Keep the logs, the next roll tries again.
+				reportInternalError(err)
+				rollsToDelete = 0
+			}
 		}
 	}
 
 	var err error
-	// In all cases (archive files or not) the files should be deleted.
+	// Files that are archived, or need no archive, should be deleted.
 	for i := 0; i < rollsToDelete; i++ {
 		// Try best to delete files without breaking the loop.
 		if err = tryRemoveFile(filepath.Join(rw.currentDirPath, history[i])); err != nil {
-- 
2.43.0


From 93256f930024c955cd2ef73a3a4c06388cfdfb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:21 +0000
Subject: [PATCH 07/27] fix: the rolling writer recovers after a failed roll,
 close or open

---
 internal/output_rollingwriter.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 1633f87..8be7d0c 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -464,10 +464,10 @@ func (rw *rollingFileWriter) getFileRollName(fileName string) string {
 func (rw *rollingFileWriter) roll() error {
 	// First, close current file.
 	err := rw.currentFile.Close()
+	rw.currentFile = nil
 	if err != nil {
 		return err
 	}
-	rw.currentFile = nil
 
 	// Current history of all previous log files.
 	// For file roller it may be like this:
@@ -521,7 +521,8 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
 
-	if rw.self.needsToRoll() {
+	// Without a current file (the last operation failed) there is nothing to roll yet.
+	if rw.self.needsToRoll() && rw.currentFile != nil {
 		if err := rw.roll(); err != nil {
 			return 0, err
 		}
@@ -542,10 +543,10 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 func (rw *rollingFileWriter) Close() error {
 	if rw.currentFile != nil {
 		e := rw.currentFile.Close()
+		rw.currentFile = nil
 		if e != nil {
 			return e
 		}
-		rw.currentFile = nil
 	}
 	return nil
 }
-- 
2.43.0


From 81bd5a3be66546b5bff78328b78d6612276d81b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:38 +0000
Subject: [PATCH 08/27] fix: a logger first created as a parent gets its
 configured level and outputs

---
 internal/logger_factory.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 0568d7f..2009498 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -31,12 +31,6 @@ func (f *factory) GetLogger(name string) api.Logger {
 	l, ok := f.loggers[name]
 	if !ok {
 		l = f.createLogger(name, f.getParent(name))
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
 	}
 
 	return l
@@ -64,6 +58,12 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		l = newLogger(name)
 		l.parent = parent
 		f.loggers[name] = l
+		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
+			//log.Println("WARN: ", err)
+		} else {
+			l.SetLevel(lvl)
+			l.SetOutputs(ops)
+		}
 	}
 	return l
 }
-- 
2.43.0


From e01a6e056020dbfc308e450508bf0eaadf249922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:39 +0000
Subject: [PATCH 09/27] fix: Printf reports its caller and not the caller of
 its caller

---
 internal/logger.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index bea1c2a..8e95635 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -111,54 +111,59 @@ type defWriter struct {
 }
 
 func (l *defWriter) Tracef(fmt string, args ...interface{}) {
-	l.Printf(api.Trace, fmt, args...)
+	l.output(api.Trace, fmt, args...)
 }
 
 func (l *defWriter) Trace(msg ...interface{}) {
-	l.Printf(api.Trace, "", msg...)
+	l.output(api.Trace, "", msg...)
 }
 
 func (l *defWriter) Debugf(fmt string, args ...interface{}) {
-	l.Printf(api.Debug, fmt, args...)
+	l.output(api.Debug, fmt, args...)
 }
 
 func (l *defWriter) Debug(msg ...interface{}) {
-	l.Printf(api.Debug, "", msg...)
+	l.output(api.Debug, "", msg...)
 }
 
 func (l *defWriter) Infof(fmt string, args ...interface{}) {
-	l.Printf(api.Info, fmt, args...)
+	l.output(api.Info, fmt, args...)
 }
 
 func (l *defWriter) Info(msg ...interface{}) {
-	l.Printf(api.Info, "", msg...)
+	l.output(api.Info, "", msg...)
 }
 
 func (l *defWriter) Warnf(fmt string, args ...interface{}) {
-	l.Printf(api.Warn, fmt, args...)
+	l.output(api.Warn, fmt, args...)
 }
 
 func (l *defWriter) Warn(msg ...interface{}) {
-	l.Printf(api.Warn, "", msg...)
+	l.output(api.Warn, "", msg...)
 }
 
 func (l *defWriter) Errorf(fmt string, args ...interface{}) {
-	l.Printf(api.Error, fmt, args...)
+	l.output(api.Error, fmt, args...)
 }
 
 func (l *defWriter) Error(msg ...interface{}) {
-	l.Printf(api.Error, "", msg...)
+	l.output(api.Error, "", msg...)
 }
 
 func (l *defWriter) Criticalf(fmt string, args ...interface{}) {
-	l.Printf(api.Critical, fmt, args...)
+	l.output(api.Critical, fmt, args...)
 }
 
 func (l *defWriter) Critical(msg ...interface{}) {
-	l.Printf(api.Critical, "", msg...)
+	l.output(api.Critical, "", msg...)
 }
 
 func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
+	l.output(lvl, fmt, args...)
+}
+
+// output is called by every logging method, so that the caller is at the same depth for all of them.
+func (l *defWriter) output(lvl api.Level, fmt string, args ...interface{}) {
 	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
 }
 
-- 
2.43.0


From f80dcaa6fe960be45af16f3eabb888b27633e88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 10/27] fix: inherited outputs get the fields and context of
 the event and do not filter by the ancestor's level

---
 internal/logger.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 8e95635..06bb9f8 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -172,11 +172,12 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		return
 	}
 
-	if len(l.logger.outputs) == 0 {
-		if l.logger.parent != nil {
-			l.logger.parent.write(name, skip+1, lvl, fmt, args...)
-			return
-		}
+	// outputs are those of the nearest logger that has some
+	target := l.logger
+	for len(target.outputs) == 0 && target.parent != nil {
+		target = target.parent
+	}
+	if len(target.outputs) == 0 {
 		log.Println("Warnning: not find outputs and parent for logger " + name)
 	}
 
@@ -191,14 +192,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if l.logger.callerInfoFlag == ciFuncFlag {
+	if target.callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if l.logger.callerInfoFlag == ciFileFlag {
+	} else if target.callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range l.logger.outputs {
+	for _, v := range target.outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From acab08323cce2f5b807707f315df85fa9c55a1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:40 +0000
Subject: [PATCH 11/27] fix: changing a logger's settings no longer races with
 logging

---
 internal/logger.go | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 06bb9f8..4f262ba 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -3,6 +3,7 @@ package internal
 import (
 	"context"
 	"log"
+	"sync"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -20,6 +21,7 @@ type defLogger struct {
 	outputs        []api.Output // 日志的Output列表
 	callerSkip     int          // caller skip depth
 	callerInfoFlag int          //
+	lock           sync.RWMutex // guards level, outputs, callerSkip and callerInfoFlag
 
 	*defWriter
 }
@@ -78,14 +80,30 @@ func (l *defLogger) LevelEnabled(lvl api.Level) bool {
 }
 
 func (l *defLogger) SetLevel(lvl api.Level) {
+	l.lock.Lock()
 	l.level = lvl
+	l.lock.Unlock()
+}
+
+// ownLevel returns the level set for this logger itself.
+func (l *defLogger) ownLevel() api.Level {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.level
+}
+
+// ownOutputs returns the outputs set for this logger itself and the caller information they need.
+func (l *defLogger) ownOutputs() ([]api.Output, int) {
+	l.lock.RLock()
+	defer l.lock.RUnlock()
+	return l.outputs, l.callerInfoFlag
 }
 
 func (l *defLogger) Level() api.Level {
 	cl := l
 	for cl != nil {
-		if cl.level != api.Uninitialized {
-			return cl.level
+		if lvl := cl.ownLevel(); lvl != api.Uninitialized {
+			return lvl
 		}
 		cl = cl.parent
 	}
@@ -93,10 +111,14 @@ func (l *defLogger) Level() api.Level {
 }
 
 func (l *defLogger) SetCallerSkip(skip int) {
+	l.lock.Lock()
 	l.callerSkip = callerSkip + skip
+	l.lock.Unlock()
 }
 
 func (l *defLogger) SetOutputs(outputs []api.Output) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
 	l.outputs = outputs
 	for _, op := range outputs {
 		if l.callerInfoFlag < op.CallerInfoFlag() {
@@ -164,7 +186,10 @@ func (l *defWriter) Printf(lvl api.Level, fmt string, args ...interface{}) {
 
 // output is called by every logging method, so that the caller is at the same depth for all of them.
 func (l *defWriter) output(lvl api.Level, fmt string, args ...interface{}) {
-	l.write(l.logger.name, l.logger.callerSkip, lvl, fmt, args...)
+	l.logger.lock.RLock()
+	skip := l.logger.callerSkip
+	l.logger.lock.RUnlock()
+	l.write(l.logger.name, skip, lvl, fmt, args...)
 }
 
 func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args ...interface{}) {
@@ -174,10 +199,12 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 
 	// outputs are those of the nearest logger that has some
 	target := l.logger
-	for len(target.outputs) == 0 && target.parent != nil {
+	outputs, callerInfoFlag := target.ownOutputs()
+	for len(outputs) == 0 && target.parent != nil {
 		target = target.parent
+		outputs, callerInfoFlag = target.ownOutputs()
 	}
-	if len(target.outputs) == 0 {
+	if len(outputs) == 0 {
 		log.Println("Warnning: not find outputs and parent for logger " + name)
 	}
 
@@ -192,14 +219,14 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if target.callerInfoFlag == ciFuncFlag {
+	if callerInfoFlag == ciFuncFlag {
 		getCallerInfo(evt, true)
-	} else if target.callerInfoFlag == ciFileFlag {
+	} else if callerInfoFlag == ciFileFlag {
 		getCallerInfo(evt, false)
 	}
 
 	// dispatch event to all outputs
-	for _, v := range target.outputs {
+	for _, v := range outputs {
 		v.Send(evt)
 	}
 }
-- 
2.43.0


From 3e16429983543da37c809064355517c5875e201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 12/27] fix: Close of an async output waits for every sent
 event, and Send and Close may overlap

---
 internal/output_base.go | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/internal/output_base.go b/internal/output_base.go
index 787a12b..f96c1b5 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -6,7 +6,6 @@ import (
 	"io"
 	"strconv"
 	"sync"
-	"sync/atomic"
 	"time"
 
 	"github.com/xtfly/log4g/api"
@@ -15,11 +14,10 @@ import (
 const (
 	defaultLayout = "%-5s [%s] %s: %s\n"
 
-	queueMinSize       = 1000
-	queueMaxSize       = 100000
-	batchMinNum        = 20
-	batchMaxNum        = 500
-	flagClosed   int32 = 1
+	queueMinSize = 1000
+	queueMaxSize = 100000
+	batchMinNum  = 20
+	batchMaxNum  = 500
 )
 
 // ------------------------------------
@@ -113,6 +111,7 @@ func NewAsyncOutput(w io.Writer, threshold api.Level, queueSize int, batchNum in
 		batchNum: batchNum,
 	}
 	o.baseOutput = &baseOutput{w: w, t: threshold}
+	o.wait.Add(1)
 	go o.loop()
 	return o
 }
@@ -124,11 +123,14 @@ type asyncOutput struct {
 	currNum  int
 	buf      bytes.Buffer
 	wait     sync.WaitGroup
-	closed   int32
+	lock     sync.RWMutex // held by Send while it uses evtChan, so that nothing follows the nil of Close
+	closed   bool
 }
 
 func (o *asyncOutput) Send(e *api.Event) {
-	if atomic.LoadInt32(&o.closed) == flagClosed {
+	o.lock.RLock()
+	defer o.lock.RUnlock()
+	if o.closed {
 		return
 	}
 	o.evtChan <- e
@@ -136,13 +138,13 @@ func (o *asyncOutput) Send(e *api.Event) {
 
 func (o *asyncOutput) Close() {
 	// support duplicate call Close method
-	if atomic.LoadInt32(&o.closed) == flagClosed {
-		return
+	o.lock.Lock()
+	if !o.closed {
+		o.closed = true
+		o.evtChan <- nil
 	}
-	o.evtChan <- nil
+	o.lock.Unlock()
 	o.wait.Wait()
-	atomic.StoreInt32(&o.closed, flagClosed)
-	close(o.evtChan)
 }
 
 func (o *asyncOutput) flush() {
@@ -153,7 +155,6 @@ func (o *asyncOutput) flush() {
 }
 
 func (o *asyncOutput) loop() {
-	o.wait.Add(1)
 	defer o.wait.Done()
 
 	tick := time.NewTicker(5 * time.Second)
-- 
2.43.0


From fac2453bb6d870500a183a90f165bc1a82c94228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:41 +0000
Subject: [PATCH 13/27] fix: a reconfiguration replaces outputs and formats
 whose definition changed

---
 internal/logger_manager.go | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 1a6d898..f9acc48 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -24,6 +24,7 @@ type defManager struct {
 	outputCreators    map[string]api.OutputFuncCreator    // key: type
 	formats           map[string]api.Formatter            // key: name
 	outputs           map[string]api.Output               // key: name
+	retired           []api.Output                        // outputs replaced by a later config
 	config            *api.Config
 	cfgNotifications  []configNotification
 }
@@ -134,6 +135,7 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 	}
 
 	m.Lock()
+	m.dropChanged(m.config, cfg)
 	m.config = cfg
 	m.Unlock()
 	for _, cn := range m.cfgNotifications {
@@ -142,6 +144,36 @@ func (m *defManager) setConfig(cfg *api.Config) error {
 	return nil
 }
 
+// dropChanged forgets the formats and outputs whose definition in the new config is not the old one.
+func (m *defManager) dropChanged(old, cfg *api.Config) {
+	for name := range m.formats {
+		if !sameDefinition(old.GetCfgFormat(name), cfg.GetCfgFormat(name)) {
+			delete(m.formats, name)
+		}
+	}
+	for name, op := range m.outputs {
+		oc, nc := old.GetCfgOutput(name), cfg.GetCfgOutput(name)
+		if !sameDefinition(oc, nc) ||
+			!sameDefinition(old.GetCfgFormat(oc.FormatName()), cfg.GetCfgFormat(nc.FormatName())) {
+			delete(m.outputs, name)
+			// messages may still be on their way to it, so it stays open until Close
+			m.retired = append(m.retired, op)
+		}
+	}
+}
+
+func sameDefinition(a, b map[string]string) bool {
+	if a == nil || b == nil || len(a) != len(b) {
+		return false
+	}
+	for k, v := range a {
+		if bv, ok := b[k]; !ok || bv != v {
+			return false
+		}
+	}
+	return true
+}
+
 func (m *defManager) validateConfig(cfg *api.Config) (err error) {
 	// check the output & format relationship in config
 
@@ -195,6 +227,9 @@ func (m *defManager) Close() {
 	for _, v := range m.outputs {
 		v.Close()
 	}
+	for _, v := range m.retired {
+		v.Close()
+	}
 	m.Unlock()
 }
 
-- 
2.43.0


From a31af850325889297f4477775d9069671e6be3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:42 +0000
Subject: [PATCH 14/27] fix: a logger dropped from the configuration inherits
 again

---
 internal/logger.go         |  2 ++
 internal/logger_factory.go | 48 ++++++++++++++++++++++++--------------
 2 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 4f262ba..d985ecd 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -23,6 +23,8 @@ type defLogger struct {
 	callerInfoFlag int          //
 	lock           sync.RWMutex // guards level, outputs, callerSkip and callerInfoFlag
 
+	configured bool // settings are from the config, guarded by the factory's lock
+
 	*defWriter
 }
 
diff --git a/internal/logger_factory.go b/internal/logger_factory.go
index 2009498..bcbcd13 100644
--- a/internal/logger_factory.go
+++ b/internal/logger_factory.go
@@ -58,12 +58,7 @@ func (f *factory) createLogger(name string, parent *defLogger) *defLogger {
 		l = newLogger(name)
 		l.parent = parent
 		f.loggers[name] = l
-		if ops, lvl, err := f.manager.GetLoggerOutputs(name); err != nil {
-			//log.Println("WARN: ", err)
-		} else {
-			l.SetLevel(lvl)
-			l.SetOutputs(ops)
-		}
+		f.applyConfig(l)
 	}
 	return l
 }
@@ -74,13 +69,8 @@ func (f *factory) getRootLogger() *defLogger {
 	}
 
 	f.root = newLogger(rootLoggerName)
-	if ops, lvl, err := f.manager.GetLoggerOutputs(rootLoggerName); err != nil {
-		f.root.SetLevel(api.Debug)
-		console, _ := NewConsoleOutput(nil)
-		f.root.SetOutputs([]api.Output{console})
-	} else {
-		f.root.SetLevel(lvl)
-		f.root.SetOutputs(ops)
+	if !f.applyConfig(f.root) {
+		f.setRootDefaults()
 	}
 
 	f.loggers[rootLoggerName] = f.root
@@ -91,15 +81,39 @@ func (f *factory) notify() {
 	f.Lock()
 	defer f.Unlock()
 	for _, k := range f.loggers {
-		if ops, lvl, err := f.manager.GetLoggerOutputs(k.name); err != nil {
-			//log.Println("WARN: ", err)
+		wasConfigured := k.configured
+		if f.applyConfig(k) || !wasConfigured {
+			continue
+		}
+		// no longer configured: inherit again
+		if k == f.root {
+			f.setRootDefaults()
 		} else {
-			k.SetLevel(lvl)
-			k.SetOutputs(ops)
+			k.SetLevel(api.Uninitialized)
+			k.SetOutputs(nil)
 		}
 	}
 }
 
+// applyConfig sets level and outputs of a logger that has a config, and reports if it has one.
+func (f *factory) applyConfig(l *defLogger) bool {
+	ops, lvl, err := f.manager.GetLoggerOutputs(l.name)
+	l.configured = err == nil
+	if err != nil {
+		//log.Println("WARN: ", err)
+		return false
+	}
+	l.SetLevel(lvl)
+	l.SetOutputs(ops)
+	return true
+}
+
+func (f *factory) setRootDefaults() {
+	f.root.SetLevel(api.Debug)
+	console, _ := NewConsoleOutput(nil)
+	f.root.SetOutputs([]api.Output{console})
+}
+
 // newFactory return a instance of Factory
 func newFactory(manager api.Manager) api.Factory {
 	factory := &factory{
-- 
2.43.0


From 7b8bc7eb2f41851f69827ec34333a1ae95e1a131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:42 +0000
Subject: [PATCH 15/27] fix: a file that is already at its size limit is rolled
 by the first write

---
 internal/output_rollingwriter.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 8be7d0c..f12efec 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -521,16 +521,18 @@ func (rw *rollingFileWriter) Write(bytes []byte) (n int, err error) {
 	rw.rollLock.Lock()
 	defer rw.rollLock.Unlock()
 
-	// Without a current file (the last operation failed) there is nothing to roll yet.
-	if rw.self.needsToRoll() && rw.currentFile != nil {
-		if err := rw.roll(); err != nil {
+	// Open first: the file may already be there and at its limit.
+	if rw.currentFile == nil {
+		if err := rw.createFileAndFolderIfNeeded(true); err != nil {
 			return 0, err
 		}
 	}
 
-	if rw.currentFile == nil {
-		err := rw.createFileAndFolderIfNeeded(true)
-		if err != nil {
+	if rw.self.needsToRoll() {
+		if err := rw.roll(); err != nil {
+			return 0, err
+		}
+		if err := rw.createFileAndFolderIfNeeded(true); err != nil {
 			return 0, err
 		}
 	}
-- 
2.43.0


From cfc7f2ee6755f51635d3f996a979f2578a422daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:43 +0000
Subject: [PATCH 16/27] fix: a memory output may be used by several goroutines

---
 internal/output_memory.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/output_memory.go b/internal/output_memory.go
index 7bcd09e..a68b7fc 100644
--- a/internal/output_memory.go
+++ b/internal/output_memory.go
@@ -2,6 +2,7 @@ package internal
 
 import (
 	"bytes"
+	"sync"
 
 	"github.com/xtfly/log4g/api"
 )
@@ -12,16 +13,25 @@ const (
 
 type memoryOutput struct {
 	api.Output
-	buf bytes.Buffer
+	buf  bytes.Buffer
+	lock sync.Mutex // guards buf
+}
+
+func (o *memoryOutput) Write(bs []byte) (int, error) {
+	o.lock.Lock()
+	defer o.lock.Unlock()
+	return o.buf.Write(bs)
 }
 
 func (o *memoryOutput) String() string {
+	o.lock.Lock()
+	defer o.lock.Unlock()
 	return o.buf.String()
 }
 
 // NewMemoryOutput return a output instance that it print message to buffer
 func NewMemoryOutput(_ api.CfgOutput) (api.Output, error) {
 	r := &memoryOutput{}
-	r.Output = NewBaseOutput(&r.buf, api.All)
+	r.Output = NewBaseOutput(r, api.All)
 	return r, nil
 }
-- 
2.43.0


From cfeecc19acf3679ecb0fda203c505be9b447dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:54 +0000
Subject: [PATCH 17/27] fix: a file whose suffix only resembles a backup number
 is not a backup

---
 internal/output_rollingwriter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index f12efec..7097012 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -583,8 +583,9 @@ func (rws *rollingFileWriterSize) isFileRollNameValid(rname string) bool {
 	if len(rname) == 0 {
 		return false
 	}
-	_, err := strconv.Atoi(rname)
-	return err == nil
+	// Only the names getNewHistoryRollFileName gives: not 0, -1, +1 or 001.
+	v, err := strconv.Atoi(rname)
+	return err == nil && v > 0 && strconv.Itoa(v) == rname
 }
 
 type rollSizeFileTailsSlice []string
-- 
2.43.0


From 7920dc25b0a9e5ebb2fe20d2b26635a75accce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:03 +0000
Subject: [PATCH 18/27] fix: an unreadable archive is not mistaken for one that
 is no tar

---
 internal/output_rollingwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 7097012..42645d8 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -27,6 +27,7 @@
 package internal
 
 import (
+	stdtar "archive/tar"
 	"fmt"
 	"io"
 	"io/ioutil"
@@ -130,6 +131,11 @@ var compressionTypes = map[rollingArchiveType]compressionType{
 			tr := tar.NewReader(gr)
 			_, err = tr.Next()
 			isTar := err == nil
+			switch err {
+			case nil, io.EOF, io.ErrUnexpectedEOF, stdtar.ErrHeader: // a tar, or none
+			default:
+				return nil, err
+			}
 
 			// Reset to beginning of file
 			if _, err := f.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From e01fc48e21d0d07152734621bf6777d370536940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:36 +0000
Subject: [PATCH 19/27] fix: a size log does not take a backup name that
 something else has

---
 internal/output_rollingwriter.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 42645d8..2a0ad06 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -622,7 +622,14 @@ func (rws *rollingFileWriterSize) getNewHistoryRollFileName(otherLogFiles []stri
 		latest := otherLogFiles[len(otherLogFiles)-1]
 		v, _ = strconv.Atoi(rws.getFileRollName(latest))
 	}
-	return fmt.Sprintf("%d", v+1)
+	// A name that something else has, a directory or a link, is not taken.
+	for v++; ; v++ {
+		name := rws.createFullFileName(rws.fileName, strconv.Itoa(v))
+		if _, err := os.Lstat(filepath.Join(rws.currentDirPath, name)); err != nil {
+			break
+		}
+	}
+	return fmt.Sprintf("%d", v)
 }
 
 func (rws *rollingFileWriterSize) getCurrentFileName() string {
-- 
2.43.0


From 68fff81595e266e7dc23a349f01f272dc28ee44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:17 +0000
Subject: [PATCH 20/27] fix: an event reports its own caller, whatever its
 context holds

---
 internal/logger.go            |  8 ++++----
 internal/logger_callerinfo.go | 28 ++++++++++++++++------------
 2 files changed, 20 insertions(+), 16 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index d985ecd..1b427ec 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -221,10 +221,10 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
-	if callerInfoFlag == ciFuncFlag {
-		getCallerInfo(evt, true)
-	} else if callerInfoFlag == ciFileFlag {
-		getCallerInfo(evt, false)
+	if callerInfoFlag != ciNoneFlog {
+		// the context may be that of another event, whose caller is not the one of this event
+		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, newCallerInfo(skip))
+		getCallerInfo(evt, callerInfoFlag == ciFuncFlag)
 	}
 
 	// dispatch event to all outputs
diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index d20ff85..33afd53 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -22,21 +22,25 @@ type callerInfo struct {
 	pc   uintptr
 }
 
-func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
-	var ci *callerInfo
-	v := evt.Ctx.Value("__caller_info")
-	if v != nil {
-		ci = v.(*callerInfo)
+// callerInfoKey is the key of the caller information in the context of an event.
+type callerInfoKey struct{}
+
+// newCallerInfo returns the place depth frames above its caller.
+func newCallerInfo(depth int) *callerInfo {
+	ci := &callerInfo{}
+	var ok bool
+	ci.pc, ci.file, ci.line, ok = runtime.Caller(depth + 1)
+	if !ok {
+		ci.file, ci.line = "???", 0
 	}
+	return ci
+}
 
+func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
+	ci, _ := evt.Ctx.Value(callerInfoKey{}).(*callerInfo)
 	if ci == nil {
-		ci = &callerInfo{}
-		var ok bool
-		ci.pc, ci.file, ci.line, ok = runtime.Caller(evt.CallDepth + 1)
-		if !ok {
-			ci.file, ci.line = "???", 0
-		}
-		evt.Ctx = context.WithValue(evt.Ctx, "__caller_info", ci)
+		ci = newCallerInfo(evt.CallDepth + 1)
+		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, ci)
 	}
 
 	if needFun && ci.pkg == "" {
-- 
2.43.0


From dba2f47e7c02dc0590962f1744aedf478b4eb139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:17 +0000
Subject: [PATCH 21/27] fix: caller information is collected for the formatters
 outputs have when they are used

---
 internal/logger.go | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/internal/logger.go b/internal/logger.go
index 1b427ec..e8de922 100644
--- a/internal/logger.go
+++ b/internal/logger.go
@@ -15,13 +15,12 @@ const (
 
 // defLogger is default logger implements interface Logger
 type defLogger struct {
-	name           string       // 日志名称
-	level          api.Level    // 日志开启的级别
-	parent         *defLogger   // 日志的父一级
-	outputs        []api.Output // 日志的Output列表
-	callerSkip     int          // caller skip depth
-	callerInfoFlag int          //
-	lock           sync.RWMutex // guards level, outputs, callerSkip and callerInfoFlag
+	name       string       // 日志名称
+	level      api.Level    // 日志开启的级别
+	parent     *defLogger   // 日志的父一级
+	outputs    []api.Output // 日志的Output列表
+	callerSkip int          // caller skip depth
+	lock       sync.RWMutex // guards level, outputs and callerSkip
 
 	configured bool // settings are from the config, guarded by the factory's lock
 
@@ -94,11 +93,11 @@ func (l *defLogger) ownLevel() api.Level {
 	return l.level
 }
 
-// ownOutputs returns the outputs set for this logger itself and the caller information they need.
-func (l *defLogger) ownOutputs() ([]api.Output, int) {
+// ownOutputs returns the outputs set for this logger itself.
+func (l *defLogger) ownOutputs() []api.Output {
 	l.lock.RLock()
 	defer l.lock.RUnlock()
-	return l.outputs, l.callerInfoFlag
+	return l.outputs
 }
 
 func (l *defLogger) Level() api.Level {
@@ -122,11 +121,6 @@ func (l *defLogger) SetOutputs(outputs []api.Output) {
 	l.lock.Lock()
 	defer l.lock.Unlock()
 	l.outputs = outputs
-	for _, op := range outputs {
-		if l.callerInfoFlag < op.CallerInfoFlag() {
-			l.callerInfoFlag = op.CallerInfoFlag()
-		}
-	}
 }
 
 type defWriter struct {
@@ -201,10 +195,10 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 
 	// outputs are those of the nearest logger that has some
 	target := l.logger
-	outputs, callerInfoFlag := target.ownOutputs()
+	outputs := target.ownOutputs()
 	for len(outputs) == 0 && target.parent != nil {
 		target = target.parent
-		outputs, callerInfoFlag = target.ownOutputs()
+		outputs = target.ownOutputs()
 	}
 	if len(outputs) == 0 {
 		log.Println("Warnning: not find outputs and parent for logger " + name)
@@ -221,6 +215,13 @@ func (l *defWriter) write(name string, skip int, lvl api.Level, fmt string, args
 		Ctx:       l.ctx,
 	}
 
+	// an output may have got its formatter after it was set here
+	callerInfoFlag := ciNoneFlog
+	for _, v := range outputs {
+		if f := v.CallerInfoFlag(); callerInfoFlag < f {
+			callerInfoFlag = f
+		}
+	}
 	if callerInfoFlag != ciNoneFlog {
 		// the context may be that of another event, whose caller is not the one of this event
 		evt.Ctx = context.WithValue(evt.Ctx, callerInfoKey{}, newCallerInfo(skip))
-- 
2.43.0


From 499f4c1ed675492bfeda644917882839da779267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:18 +0000
Subject: [PATCH 22/27] fix: a configuration changed in place and set again
 takes effect

---
 internal/logger_manager.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index f9acc48..779ca13 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -130,6 +130,7 @@ func (m *defManager) LoadConfig(bs []byte, ext string) (err error) {
 }
 
 func (m *defManager) setConfig(cfg *api.Config) error {
+	cfg = copyConfig(cfg)
 	if err := m.validateConfig(cfg); err != nil {
 		return err
 	}
@@ -162,6 +163,30 @@ func (m *defManager) dropChanged(old, cfg *api.Config) {
 	}
 }
 
+// copyConfig copies the config, whose owner may change it and set it again.
+func copyConfig(cfg *api.Config) *api.Config {
+	c := &api.Config{}
+	for _, f := range cfg.Formats {
+		c.Formats = append(c.Formats, copyDefinition(f))
+	}
+	for _, o := range cfg.Outputs {
+		c.Outputs = append(c.Outputs, copyDefinition(o))
+	}
+	for _, l := range cfg.Loggers {
+		l.OutputNames = append([]string(nil), l.OutputNames...)
+		c.Loggers = append(c.Loggers, l)
+	}
+	return c
+}
+
+func copyDefinition(d map[string]string) map[string]string {
+	c := make(map[string]string, len(d))
+	for k, v := range d {
+		c[k] = v
+	}
+	return c
+}
+
 func sameDefinition(a, b map[string]string) bool {
 	if a == nil || b == nil || len(a) != len(b) {
 		return false
-- 
2.43.0


From f70833c0afb4ef7122076323298ad7077cbe0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:18 +0000
Subject: [PATCH 23/27] fix: an async output does not write when there is
 nothing to write

---
 internal/output_base.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/output_base.go b/internal/output_base.go
index f96c1b5..a425260 100644
--- a/internal/output_base.go
+++ b/internal/output_base.go
@@ -148,6 +148,9 @@ func (o *asyncOutput) Close() {
 }
 
 func (o *asyncOutput) flush() {
+	if o.currNum == 0 {
+		return // a write of nothing could roll the file
+	}
 	bs := o.buf.Bytes()
 	o.w.Write(bs)
 	o.buf.Truncate(0)
-- 
2.43.0


From c73687b6aecaad3eec64a7537b5946f5f923fafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:33 +0000
Subject: [PATCH 24/27] fix: the temporary file of an archive is removed when
 the archive cannot be put in place

---
 internal/output_rollingwriter.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/output_rollingwriter.go b/internal/output_rollingwriter.go
index 2a0ad06..453b61f 100644
--- a/internal/output_rollingwriter.go
+++ b/internal/output_rollingwriter.go
@@ -327,6 +327,9 @@ func (rw *rollingFileWriter) archiveExplodedLogs(logFilename string, compression
 		// Finalize archive by swapping the buffered archive into place
 		err = os.Rename(dst.Name(), filepath.Join(rw.archivePath,
 			compressionType.rollingArchiveTypeName(logFilename, true)))
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	// archive entry
@@ -365,6 +368,9 @@ func (rw *rollingFileWriter) archiveUnexplodedLogs(compressionType compressionTy
 
 		// Finalize archive by moving the buffered archive into place
 		err = os.Rename(dst.Name(), rw.archivePath)
+		if err != nil {
+			os.Remove(dst.Name())
+		}
 	}()
 
 	w := compressionType.archiver(dst, false)
-- 
2.43.0


From 3ef8548dfffcf8149f940e9d665fb78f5bc348ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:34 +0000
Subject: [PATCH 25/27] fix: name packages whose path ends with a dotted
 element

runtime.FuncForPC escapes the dots of the last path element, so %{longpkg} and
%{shortpkg} gave gopkg.in/yaml%2ev2 for gopkg.in/yaml.v2.
---
 internal/logger_callerinfo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/logger_callerinfo.go b/internal/logger_callerinfo.go
index 33afd53..84b092c 100644
--- a/internal/logger_callerinfo.go
+++ b/internal/logger_callerinfo.go
@@ -51,7 +51,8 @@ func getCallerInfo(evt *api.Event, needFun bool) *callerInfo {
 			if j < 1 {
 				ci.pkg, ci.fun = "???", "???"
 			} else {
-				ci.pkg, ci.fun = fs[:i+j+1], fs[i+j+2:]
+				// the runtime escapes the dots of the last element of a package path
+				ci.pkg, ci.fun = strings.Replace(fs[:i+j+1], "%2e", ".", -1), fs[i+j+2:]
 			}
 		}
 	}
-- 
2.43.0


From edf9741dbaef2dc00ae93748b8b3ccb65f7c84fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:34 +0000
Subject: [PATCH 26/27] fix: %{shortfunc} of a statement in a generic function

The runtime names an instance pkg.F[...], of which only the last ] was printed.
---
 internal/format_parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/format_parser.go b/internal/format_parser.go
index c259082..d6a2a8c 100644
--- a/internal/format_parser.go
+++ b/internal/format_parser.go
@@ -258,7 +258,8 @@ func longfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 // %{shortfunc} Base function name, eg. PutUint32
 func shortfuncFormatFunc(evt *api.Event, _ *part) interface{} {
 	ci := getCallerInfo(evt, true)
-	i := strings.LastIndex(ci.fun, ".")
+	// an instance of a generic function is named f[...]
+	i := strings.LastIndex(strings.TrimSuffix(ci.fun, "[...]"), ".")
 	return ci.fun[i+1:]
 }
 
-- 
2.43.0


From d97d59c387243cce7e127ca69d74f59d85da58a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:49 +0000
Subject: [PATCH 27/27] fix: creators get a copy of the definition, the
 definition in effect stays as it was set

---
 internal/logger_manager.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/logger_manager.go b/internal/logger_manager.go
index 779ca13..692e5f3 100644
--- a/internal/logger_manager.go
+++ b/internal/logger_manager.go
@@ -79,7 +79,7 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 
 		fmtt, ok := m.formats[fmtcfg.Name()]
 		if !ok {
-			if fmtt, err = fmtcreator(fmtcfg); err != nil {
+			if fmtt, err = fmtcreator(copyDefinition(fmtcfg)); err != nil {
 				return
 			}
 			m.formats[fmtcfg.Name()] = fmtt
@@ -92,7 +92,7 @@ func (m *defManager) GetLoggerOutputs(name string) (ops []api.Output, lvl api.Le
 
 		op, ok := m.outputs[opcfg.Name()]
 		if !ok {
-			if op, err = opcreator(opcfg); err != nil {
+			if op, err = opcreator(copyDefinition(opcfg)); err != nil {
 				return
 			}
 			op.SetFormatter(fmtt)
-- 
2.43.0

