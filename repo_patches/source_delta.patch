From 5451212f68d4561c070fe0ac4f5897fa61b0c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:58 +0000
Subject: [PATCH 01/25] fix: refuse negative and overflowing offsets in
 ByteWriter.Write

---
 bytewriter/bytewriter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index fc62416..ac99f7b 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -34,7 +34,7 @@ func (w *ByteWriter) Bytes() []byte { return w.buffer }
 func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 	l := len(data)
 
-	if offset+l > w.Len() {
+	if offset < 0 || l > w.Len()-offset {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-- 
2.43.0


From a15ffa94f519d1ce8ee17346eed46f7576a47ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:01 +0000
Subject: [PATCH 02/25] fix: do not tear values byte by byte in
 ByteWriter.Write

---
 bytewriter/bytewriter.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bytewriter/bytewriter.go b/bytewriter/bytewriter.go
index ac99f7b..534e973 100644
--- a/bytewriter/bytewriter.go
+++ b/bytewriter/bytewriter.go
@@ -38,9 +38,9 @@ func (w *ByteWriter) Write(data []byte, offset int) (int, error) {
 		return -1, errors.Errorf("cannot write %v bytes at offset %v", l, offset)
 	}
 
-	for i := 0; i < l; i++ {
-		w.buffer[offset+i] = data[i]
-	}
+	// the buffer may be shared with readers in other processes, copy stores
+	// aligned values at once where a loop over the bytes would tear them
+	copy(w.buffer[offset:], data)
 
 	return offset + l, nil
 }
-- 
2.43.0


From dfcb2063e7eac8d7d7663251fe5b36ec335f4514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:27 +0000
Subject: [PATCH 03/25] fix: close and remove the file when a
 MemoryMappedWriter cannot be set up

---
 bytewriter/memorymappedwriter.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index 4d6821f..a85a97e 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -37,16 +37,25 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 		return nil, err
 	}
 
+	// a file that cannot be initialized and mapped must not be left behind
+	cleanup := func() {
+		_ = f.Close()
+		_ = os.Remove(loc)
+	}
+
 	l, err := f.Write(make([]byte, size))
 	if err != nil {
+		cleanup()
 		return nil, err
 	}
 	if l < size {
+		cleanup()
 		return nil, errors.Errorf("Could not initialize %d bytes", size)
 	}
 
 	b, err := mmap.Map(f, mmap.RDWR, 0)
 	if err != nil {
+		cleanup()
 		return nil, err
 	}
 
-- 
2.43.0


From 48f99b306584865eb5c6cb22ef1f4e8e421013db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:30 +0000
Subject: [PATCH 04/25] fix: config: close the file, report read errors and
 ignore commented assignments

---
 config.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/config.go b/config.go
index 041b157..e7f79d4 100644
--- a/config.go
+++ b/config.go
@@ -17,7 +17,7 @@ var confPath string
 var config map[string]string
 
 // pat stores a valid key-value pattern line
-var pat = "([A-Z0-9_]+)=(.*)"
+var pat = "^([A-Z0-9_]+)=(.*)"
 
 // initConfig initializes the config constants
 func initConfig() error {
@@ -39,18 +39,24 @@ func initConfig() error {
 	if err != nil {
 		return err
 	}
+	defer f.Close()
 
-	// if we reach at this point, it means we have a valid config
-	// that can be read, so we can make the map non-nil
-	config = make(map[string]string)
+	// the map only becomes non-nil when we have a valid config that can be
+	// read completely
+	conf := make(map[string]string)
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
 		t := scanner.Text()
 		if re.MatchString(t) {
 			matches := re.FindStringSubmatch(t)
-			config[matches[1]] = matches[2]
+			conf[matches[1]] = matches[2]
 		}
 	}
 
+	if err := scanner.Err(); err != nil {
+		return err
+	}
+
+	config = conf
 	return nil
 }
-- 
2.43.0


From 46258dd5390602d22b74e9684047617dc870c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:51 +0000
Subject: [PATCH 05/25] fix: refuse client names that cannot be file names

---
 client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client.go b/client.go
index 282efe3..a2527ad 100644
--- a/client.go
+++ b/client.go
@@ -72,6 +72,10 @@ func mmvFileLocation(name string) (string, error) {
 		return "", errors.New("name cannot have path separator")
 	}
 
+	if name == "" || name == "." || name == ".." || strings.ContainsRune(name, 0) {
+		return "", errors.Errorf("%q cannot be the name of a file", name)
+	}
+
 	tdir, present := config["PCP_TMP_DIR"]
 	var loc string
 	if present {
-- 
2.43.0


From e10bccfe6c76fa85caadb8febe5e9f7ee3cbcda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:54 +0000
Subject: [PATCH 06/25] fix: count the toc of instance domains that have no
 instances

---
 client.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index a2527ad..4660706 100644
--- a/client.go
+++ b/client.go
@@ -163,8 +163,12 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 func (c *PCPClient) tocCount() int {
 	ans := 2
 
+	if c.r.InstanceDomainCount() > 0 {
+		ans++
+	}
+
 	if c.r.InstanceCount() > 0 {
-		ans += 2
+		ans++
 	}
 
 	if c.r.StringCount() > 0 {
-- 
2.43.0


From 267b03b5dfa13c6f640c853af877c27650602814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:32 +0000
Subject: [PATCH 07/25] fix: refuse string values and descriptions that do not
 fit into a string block

---
 instance_domain.go | 4 ++++
 metrics.go         | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/instance_domain.go b/instance_domain.go
index fe4b42d..a16f8ac 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -52,6 +52,10 @@ func NewPCPInstanceDomain(name string, instances []string, desc ...string) (*PCP
 		longDescription = desc[1]
 	}
 
+	if len(shortDescription) > StringLength || len(longDescription) > StringLength {
+		return nil, errors.New("Instance Domain description is too long")
+	}
+
 	imap := make(map[string]*pcpInstance)
 
 	for _, instance := range instances {
diff --git a/metrics.go b/metrics.go
index cb55701..c9c0628 100644
--- a/metrics.go
+++ b/metrics.go
@@ -82,7 +82,8 @@ func (m MetricType) IsCompatible(val interface{}) bool {
 	case float64:
 		return m.isCompatibleFloat(v)
 	case string:
-		return m == StringType
+		// a string value has to fit into its string block
+		return m == StringType && len(v) <= StringLength
 	}
 	return false
 }
@@ -499,6 +500,10 @@ func newpcpMetricDesc(n string, t MetricType, s MetricSemantics, u MetricUnit, d
 		longdesc = desc[1]
 	}
 
+	if len(shortdesc) > StringLength || len(longdesc) > StringLength {
+		return nil, errors.New("metric description is too long")
+	}
+
 	return &pcpMetricDesc{
 		hash(n, PCPMetricItemBitLength),
 		n, t, s, u,
-- 
2.43.0


From 6f45b5878218113fc51b075d9282f889a5f7effb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:35 +0000
Subject: [PATCH 08/25] fix: refuse increments that make a counter overflow

---
 metrics.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metrics.go b/metrics.go
index c9c0628..491e8d1 100644
--- a/metrics.go
+++ b/metrics.go
@@ -730,6 +730,11 @@ func (c *PCPCounter) Inc(val int64) error {
 	}
 
 	v := c.val.(int64)
+
+	if v > math.MaxInt64-val {
+		return errors.Errorf("cannot increment counter by %v, current value is %v and PCP counters cannot go backwards", val, v)
+	}
+
 	v += val
 	return c.set(v)
 }
@@ -1208,6 +1213,10 @@ func (c *PCPCounterVector) Inc(inc int64, instance string) error {
 		return err
 	}
 
+	if v.(int64) > math.MaxInt64-inc {
+		return errors.Errorf("cannot increment instance %s by %v, the counter would go backwards", instance, inc)
+	}
+
 	return c.setInstance(v.(int64)+inc, instance)
 }
 
-- 
2.43.0


From 38c09b12add403b0a88edc3840d5922858a789a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:37 +0000
Subject: [PATCH 09/25] fix: report the lowest and highest value of a histogram
 the right way round

---
 metrics.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/metrics.go b/metrics.go
index 491e8d1..36eda79 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1387,6 +1387,7 @@ type PCPHistogram struct {
 	*pcpInstanceMetric
 	mutex sync.RWMutex
 	h     *histogram.Histogram
+	low   int64
 }
 
 // the maximum and minimum values that can be recorded by a histogram
@@ -1455,14 +1456,14 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 		return nil, err
 	}
 
-	return &PCPHistogram{m, sync.RWMutex{}, h}, nil
+	return &PCPHistogram{m, sync.RWMutex{}, h, low}, nil
 }
 
 // High returns the maximum recordable value.
-func (h *PCPHistogram) High() int64 { return h.h.LowestTrackableValue() }
+func (h *PCPHistogram) High() int64 { return h.h.HighestTrackableValue() }
 
 // Low returns the minimum recordable value.
-func (h *PCPHistogram) Low() int64 { return h.h.HighestTrackableValue() }
+func (h *PCPHistogram) Low() int64 { return h.low }
 
 // Max returns the maximum recorded value so far.
 func (h *PCPHistogram) Max() int64 {
-- 
2.43.0


From b69cb8fac2149fde45b4a5ecbe085b006fdca0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 10/25] fix: refuse to record a value a negative number of
 times

---
 metrics.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metrics.go b/metrics.go
index 36eda79..7c8e9a6 100644
--- a/metrics.go
+++ b/metrics.go
@@ -1537,6 +1537,10 @@ func (h *PCPHistogram) RecordN(val, n int64) error {
 	h.mutex.Lock()
 	defer h.mutex.Unlock()
 
+	if n < 0 {
+		return errors.Errorf("cannot record a value %v times", n)
+	}
+
 	err := h.h.RecordValues(val, n)
 	if err != nil {
 		return err
-- 
2.43.0


From 1021d0a82e5884299c97e627b166d3dd1c5e604f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:43 +0000
Subject: [PATCH 11/25] fix: lock histograms and singleton metrics while they
 are rendered

---
 metrics.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/metrics.go b/metrics.go
index 7c8e9a6..94cf087 100644
--- a/metrics.go
+++ b/metrics.go
@@ -648,7 +648,7 @@ func (m *PCPSingletonMetric) MustSet(val interface{}) {
 }
 
 func (m *PCPSingletonMetric) String() string {
-	return fmt.Sprintf("Val: %v\n%v", m.val, m.Description())
+	return fmt.Sprintf("Val: %v\n%v", m.Val(), m.Description())
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -1578,7 +1578,11 @@ func (h *PCPHistogram) Variance() float64 {
 }
 
 // Percentile returns the value at the passed percentile.
-func (h *PCPHistogram) Percentile(p float64) int64 { return h.h.ValueAtQuantile(p) }
+func (h *PCPHistogram) Percentile(p float64) int64 {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+	return h.h.ValueAtQuantile(p)
+}
 
 // HistogramBucket is a single histogram bucket within a fixed range.
 type HistogramBucket struct {
@@ -1587,6 +1591,9 @@ type HistogramBucket struct {
 
 // Buckets returns a list of histogram buckets.
 func (h *PCPHistogram) Buckets() []*HistogramBucket {
+	h.mutex.RLock()
+	defer h.mutex.RUnlock()
+
 	b := h.h.Distribution()
 	buckets := make([]*HistogramBucket, len(b))
 	for i := 0; i < len(b); i++ {
-- 
2.43.0


From fda30e4845393ea11277de9ebaa7cf10d4b5b7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:00 +0000
Subject: [PATCH 12/25] fix: neither lose updates while a client starts nor
 write them to a mapping that is gone

---
 client.go  | 13 +++++++++++++
 metrics.go | 52 ++++++++++++++++++++++++++++++++--------------------
 2 files changed, 45 insertions(+), 20 deletions(-)

diff --git a/client.go b/client.go
index 4660706..3385922 100644
--- a/client.go
+++ b/client.go
@@ -522,7 +522,11 @@ func (c *PCPClient) writeSingletonMetric(m *pcpSingletonMetric) {
 	c.valueoffsetc <- off + ValueLength
 
 	go func(offset int) {
+		// an update has to be either in the value that is written here or
+		// go through the closure, so none may happen in between
+		m.mutex.Lock()
 		m.update = c.writeValue(m.t, m.val, offset)
+		m.mutex.Unlock()
 		wg.Done()
 	}(off)
 
@@ -548,7 +552,9 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		c.valueoffsetc <- off + ValueLength
 
 		go func(i *instanceValue, offset int) {
+			m.mutex.Lock()
 			i.update = c.writeValue(m.t, i.val, offset)
+			m.mutex.Unlock()
 			wg.Done()
 		}(m.vals[name], off)
 
@@ -654,6 +660,13 @@ func (c *PCPClient) Stop() error {
 }
 
 func (c *PCPClient) stop() {
+	// no metric may write to the mapping once it is gone
+	for _, m := range c.r.metrics {
+		if metric, ok := m.(interface{ detach() }); ok {
+			metric.detach()
+		}
+	}
+
 	c.instanceoffsetc, c.indomoffsetc = nil, nil
 	c.metricoffsetc, c.valueoffsetc = nil, nil
 	c.stringoffsetc = nil
diff --git a/metrics.go b/metrics.go
index 94cf087..bed9cd1 100644
--- a/metrics.go
+++ b/metrics.go
@@ -561,6 +561,7 @@ func newupdateClosure(offset int, writer bytewriter.Writer) updateClosure {
 // pcpSingletonMetric defines an embeddable base singleton metric.
 type pcpSingletonMetric struct {
 	*pcpMetricDesc
+	mutex  sync.RWMutex // guards val and update
 	val    interface{}
 	update updateClosure
 }
@@ -572,7 +573,7 @@ func newpcpSingletonMetric(val interface{}, desc *pcpMetricDesc) (*pcpSingletonM
 	}
 
 	val = desc.t.resolve(val)
-	return &pcpSingletonMetric{desc, val, nil}, nil
+	return &pcpSingletonMetric{pcpMetricDesc: desc, val: val}, nil
 }
 
 // set Sets the current value of pcpSingletonMetric.
@@ -598,13 +599,20 @@ func (m *pcpSingletonMetric) set(val interface{}) error {
 
 func (m *pcpSingletonMetric) Indom() *PCPInstanceDomain { return nil }
 
+// detach ends the writing of updates, when it returns none is under way.
+func (m *pcpSingletonMetric) detach() {
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+
+	m.update = nil
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 
 // PCPSingletonMetric defines a singleton metric with no instance domain
 // only a value and a valueoffset.
 type PCPSingletonMetric struct {
 	*pcpSingletonMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPSingletonMetric creates a new instance of PCPSingletonMetric
@@ -621,7 +629,7 @@ func NewPCPSingletonMetric(val interface{}, name string, t MetricType, s MetricS
 		return nil, err
 	}
 
-	return &PCPSingletonMetric{sm, sync.RWMutex{}}, nil
+	return &PCPSingletonMetric{sm}, nil
 }
 
 // Val returns the current Set value of PCPSingletonMetric.
@@ -671,7 +679,6 @@ type Counter interface {
 // PCPCounter implements a PCP compatible Counter Metric.
 type PCPCounter struct {
 	*pcpSingletonMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPCounter creates a new PCPCounter instance.
@@ -691,7 +698,7 @@ func NewPCPCounter(val int64, name string, desc ...string) (*PCPCounter, error)
 		return nil, err
 	}
 
-	return &PCPCounter{sm, sync.RWMutex{}}, nil
+	return &PCPCounter{sm}, nil
 }
 
 // Val returns the current value of the counter.
@@ -773,7 +780,6 @@ type Gauge interface {
 // PCPGauge defines a PCP compatible Gauge metric
 type PCPGauge struct {
 	*pcpSingletonMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPGauge creates a new PCPGauge instance.
@@ -793,7 +799,7 @@ func NewPCPGauge(val float64, name string, desc ...string) (*PCPGauge, error) {
 		return nil, err
 	}
 
-	return &PCPGauge{sm, sync.RWMutex{}}, nil
+	return &PCPGauge{sm}, nil
 }
 
 // Val returns the current value of the Gauge.
@@ -868,7 +874,6 @@ type Timer interface {
 // It also functionally implements a metric with elapsed type from PCP
 type PCPTimer struct {
 	*pcpSingletonMetric
-	mutex   sync.Mutex
 	started bool
 	since   time.Time
 }
@@ -888,7 +893,7 @@ func NewPCPTimer(name string, unit TimeUnit, desc ...string) (*PCPTimer, error)
 		return nil, err
 	}
 
-	return &PCPTimer{sm, sync.Mutex{}, false, time.Time{}}, nil
+	return &PCPTimer{sm, false, time.Time{}}, nil
 }
 
 // Reset resets the timer to 0
@@ -970,6 +975,7 @@ func newinstanceValue(val interface{}) *instanceValue {
 // over multiple instances in an instance domain.
 type pcpInstanceMetric struct {
 	*pcpMetricDesc
+	mutex sync.RWMutex // guards vals
 	indom *PCPInstanceDomain
 	vals  map[string]*instanceValue
 }
@@ -996,7 +1002,7 @@ func newpcpInstanceMetric(vals Instances, indom *PCPInstanceDomain, desc *pcpMet
 		mvals[name] = newinstanceValue(val)
 	}
 
-	return &pcpInstanceMetric{desc, indom, mvals}, nil
+	return &pcpInstanceMetric{pcpMetricDesc: desc, indom: indom, vals: mvals}, nil
 }
 
 func (m *pcpInstanceMetric) valInstance(instance string) (interface{}, error) {
@@ -1033,6 +1039,16 @@ func (m *pcpInstanceMetric) setInstance(val interface{}, instance string) error
 	return nil
 }
 
+// detach ends the writing of updates, when it returns none is under way.
+func (m *pcpInstanceMetric) detach() {
+	m.mutex.Lock()
+	defer m.mutex.Unlock()
+
+	for _, v := range m.vals {
+		v.update = nil
+	}
+}
+
 // Indom returns the instance domain for the metric.
 func (m *pcpInstanceMetric) Indom() *PCPInstanceDomain { return m.indom }
 
@@ -1046,7 +1062,6 @@ func (m *pcpInstanceMetric) Instances() []string { return m.indom.Instances() }
 // over multiple instances in an instance domain.
 type PCPInstanceMetric struct {
 	*pcpInstanceMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPInstanceMetric creates a new instance of PCPSingletonMetric.
@@ -1063,7 +1078,7 @@ func NewPCPInstanceMetric(vals Instances, name string, indom *PCPInstanceDomain,
 		return nil, err
 	}
 
-	return &PCPInstanceMetric{im, sync.RWMutex{}}, nil
+	return &PCPInstanceMetric{im}, nil
 }
 
 // ValInstance returns the value for a particular instance of the metric.
@@ -1129,7 +1144,6 @@ func generateInstanceMetric(vals map[string]interface{}, name string, instances
 // PCPCounterVector implements a CounterVector
 type PCPCounterVector struct {
 	*pcpInstanceMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPCounterVector creates a new instance of a PCPCounterVector.
@@ -1148,7 +1162,7 @@ func NewPCPCounterVector(values map[string]int64, name string, desc ...string) (
 		return nil, err
 	}
 
-	return &PCPCounterVector{im, sync.RWMutex{}}, nil
+	return &PCPCounterVector{im}, nil
 }
 
 // Val returns the value of a particular instance of PCPCounterVector.
@@ -1266,7 +1280,6 @@ type GaugeVector interface {
 // PCPGaugeVector implements a GaugeVector
 type PCPGaugeVector struct {
 	*pcpInstanceMetric
-	mutex sync.RWMutex
 }
 
 // NewPCPGaugeVector creates a new instance of a PCPGaugeVector.
@@ -1284,7 +1297,7 @@ func NewPCPGaugeVector(values map[string]float64, name string, desc ...string) (
 		return nil, err
 	}
 
-	return &PCPGaugeVector{im, sync.RWMutex{}}, nil
+	return &PCPGaugeVector{im}, nil
 }
 
 // Val returns the value of a particular instance of PCPGaugeVector
@@ -1385,9 +1398,8 @@ type Histogram interface {
 // https://github.com/HdrHistogram/hdrhistogram-go
 type PCPHistogram struct {
 	*pcpInstanceMetric
-	mutex sync.RWMutex
-	h     *histogram.Histogram
-	low   int64
+	h   *histogram.Histogram
+	low int64
 }
 
 // the maximum and minimum values that can be recorded by a histogram
@@ -1456,7 +1468,7 @@ func NewPCPHistogram(name string, low, high int64, sigfigures int, unit MetricUn
 		return nil, err
 	}
 
-	return &PCPHistogram{m, sync.RWMutex{}, h, low}, nil
+	return &PCPHistogram{m, h, low}, nil
 }
 
 // High returns the maximum recordable value.
-- 
2.43.0


From 151dbd0a8ec80dd1bcba052227e74700fb58c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 13/25] fix: register metrics and instance domains atomically

Checking for an existing name, adding the instance domain and adding the
metric happen in one critical section, counts are read under the locks, a
metric whose instance domain differs from the registered one of the same name
is refused, and a failed registration by string leaves nothing behind.
---
 registry.go | 94 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 75 insertions(+), 19 deletions(-)

diff --git a/registry.go b/registry.go
index 1d66249..ccc6455 100644
--- a/registry.go
+++ b/registry.go
@@ -49,7 +49,7 @@ type PCPRegistry struct {
 	instanceDomains map[string]*PCPInstanceDomain // a cache for instanceDomains
 	metrics         map[string]PCPMetric          // a cache for metrics
 
-	// locks
+	// locks, whoever changes the registry holds both of them, taken in this order
 	indomlock   sync.RWMutex
 	metricslock sync.RWMutex
 
@@ -102,17 +102,55 @@ func (r *PCPRegistry) MetricCount() int {
 }
 
 // ValuesCount returns the number of values in the registry
-func (r *PCPRegistry) ValuesCount() int { return r.valueCount }
+func (r *PCPRegistry) ValuesCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.valueCount
+}
 
 // StringCount returns the number of strings in the registry
 func (r *PCPRegistry) StringCount() int {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
 	if r.version2 {
-		return r.stringcount + r.MetricCount() + r.InstanceCount()
+		return r.stringcount + len(r.metrics) + r.instanceCount
 	}
 
 	return r.stringcount
 }
 
+func (r *PCPRegistry) isVersion2() bool {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.version2
+}
+
+func (r *PCPRegistry) isMapped() bool {
+	r.metricslock.RLock()
+	defer r.metricslock.RUnlock()
+
+	return r.mapped
+}
+
+// setMapped marks the registry as mapped or not and returns false if it
+// already was
+func (r *PCPRegistry) setMapped(mapped bool) bool {
+	r.indomlock.Lock()
+	defer r.indomlock.Unlock()
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
+	if r.mapped == mapped {
+		return false
+	}
+
+	r.mapped = mapped
+	return true
+}
+
 // HasInstanceDomain returns true if the registry already has an indom of the specified name
 func (r *PCPRegistry) HasInstanceDomain(name string) bool {
 	r.indomlock.RLock()
@@ -133,12 +171,19 @@ func (r *PCPRegistry) HasMetric(name string) bool {
 
 // AddInstanceDomain will add a new instance domain to the current registry
 func (r *PCPRegistry) AddInstanceDomain(indom InstanceDomain) error {
-	if r.HasInstanceDomain(indom.Name()) {
-		return errors.New("InstanceDomain is already defined for the current registry")
-	}
-
 	r.indomlock.Lock()
 	defer r.indomlock.Unlock()
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
+	return r.addInstanceDomain(indom)
+}
+
+// addInstanceDomain needs both locks
+func (r *PCPRegistry) addInstanceDomain(indom InstanceDomain) error {
+	if _, present := r.instanceDomains[indom.Name()]; present {
+		return errors.New("InstanceDomain is already defined for the current registry")
+	}
 
 	if r.mapped {
 		return errors.New("Cannot add an indom when a mapping is active")
@@ -194,27 +239,33 @@ func (r *PCPRegistry) addMetric(m PCPMetric) {
 
 // AddMetric will add a new metric to the current registry
 func (r *PCPRegistry) AddMetric(m Metric) error {
+	r.indomlock.Lock()
+	defer r.indomlock.Unlock()
+	r.metricslock.Lock()
+	defer r.metricslock.Unlock()
+
 	if r.mapped {
 		return errors.New("cannot add a metric when a mapping is active")
 	}
 
-	if r.HasMetric(m.Name()) {
+	if _, present := r.metrics[m.Name()]; present {
 		return errors.New("metric is already defined for the current registry")
 	}
 
 	pcpm := m.(PCPMetric)
 
 	// if it is an indom metric
-	if pcpm.Indom() != nil && !r.HasInstanceDomain(pcpm.Indom().Name()) {
-		err := r.AddInstanceDomain(pcpm.Indom())
-		if err != nil {
-			return err
+	if pcpm.Indom() != nil {
+		if indom, present := r.instanceDomains[pcpm.Indom().Name()]; !present {
+			err := r.addInstanceDomain(pcpm.Indom())
+			if err != nil {
+				return err
+			}
+		} else if !indom.MatchInstances(pcpm.Indom().Instances()) {
+			return errors.Errorf("a different instance domain under the name %v already exists in the registry", indom.Name())
 		}
 	}
 
-	r.metricslock.Lock()
-	defer r.metricslock.Unlock()
-
 	r.addMetric(pcpm)
 	return nil
 }
@@ -294,13 +345,18 @@ func (r *PCPRegistry) addInstanceMetricByString(name string, val interface{}, in
 		err error
 	)
 
-	if !r.HasInstanceDomain(indom) {
-		id, err = r.AddInstanceDomainByName(indom, instances)
+	r.indomlock.RLock()
+	existing, present := r.instanceDomains[indom]
+	r.indomlock.RUnlock()
+
+	if !present {
+		// it is added along with the metric
+		id, err = NewPCPInstanceDomain(indom, instances)
 		if err != nil {
 			return nil, err
 		}
-	} else if r.instanceDomains[indom].MatchInstances(instances) {
-		id = r.instanceDomains[indom]
+	} else if existing.MatchInstances(instances) {
+		id = existing
 	} else {
 		return nil, errors.Errorf("a different instance domain under the name %v already exists in the registry", indom)
 	}
-- 
2.43.0


From 12ee5a881080db509077633e69e037ac0ea270e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:29 +0000
Subject: [PATCH 14/25] fix: freeze the registry before a client is started and
 refuse to start it twice

Registrations that run concurrently with Start were accepted after the length
of the file had been computed, and a second Start leaked the first mapping.
---
 client.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/client.go b/client.go
index 3385922..20d318d 100644
--- a/client.go
+++ b/client.go
@@ -152,7 +152,7 @@ func (c *PCPClient) SetFlag(flag MMVFlag) error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if c.r.mapped {
+	if c.r.isMapped() {
 		return errors.New("cannot set mmv flag for an active client")
 	}
 
@@ -185,7 +185,7 @@ func (c *PCPClient) Length() int {
 		MetricLength   = Metric1Length
 	)
 
-	if c.r.version2 {
+	if c.r.isVersion2() {
 		InstanceLength = Instance2Length
 		MetricLength = Metric2Length
 	}
@@ -204,16 +204,21 @@ func (c *PCPClient) Start() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
+	// from here on nothing can be added to the registry
+	if !c.r.setMapped(true) {
+		return errors.New("trying to start an already active mapping")
+	}
+
 	l := c.Length()
 
 	writer, err := bytewriter.NewMemoryMappedWriter(c.loc, l)
 	if err != nil {
+		c.r.setMapped(false)
 		return errors.Wrap(err, "cannot create MemoryMappedBuffer in client")
 	}
 
 	c.writer = writer
 	c.start()
-	c.r.mapped = true
 	return nil
 }
 
@@ -642,16 +647,15 @@ func (c *PCPClient) Stop() error {
 	c.mutex.Lock()
 	defer c.mutex.Unlock()
 
-	if !c.r.mapped {
+	if c.writer == nil {
 		return errors.New("trying to stop an already stopped mapping")
 	}
 
 	c.stop()
 
-	c.r.mapped = false
-
 	err := c.writer.(*bytewriter.MemoryMappedWriter).Unmap(EraseFileOnStop)
 	c.writer = nil
+	c.r.setMapped(false)
 	if err != nil {
 		return errors.Wrap(err, "client: error unmapping MemoryMappedBuffer")
 	}
-- 
2.43.0


From bc5a728c3f36c8d600863dc5f176462894b776b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 15/25] fix: refer to the instances of the registered instance
 domain

---
 client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client.go b/client.go
index 20d318d..c2a59da 100644
--- a/client.go
+++ b/client.go
@@ -552,7 +552,9 @@ func (c *PCPClient) writeInstanceMetric(m *pcpInstanceMetric) {
 		wg.Done()
 	}()
 
-	for name, i := range m.indom.instances {
+	// the instances that are written are those of the registered instance
+	// domain, the metric may have an equal one of its own
+	for name, i := range c.r.instanceDomains[m.indom.name].instances {
 		off := <-c.valueoffsetc
 		c.valueoffsetc <- off + ValueLength
 
-- 
2.43.0


From 2df7b52577e8d3c72c8e62604ff8dbd7c1eff73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:35 +0000
Subject: [PATCH 16/25] fix: keep concurrently starting clients from mixing up
 their instance offsets

---
 client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/client.go b/client.go
index c2a59da..08503cf 100644
--- a/client.go
+++ b/client.go
@@ -199,6 +199,10 @@ func (c *PCPClient) Length() int {
 		(c.r.StringCount() * StringLength)
 }
 
+// startmutex keeps clients that share instance domains, as all of those with
+// histograms do, from overwriting the instance offsets of one another
+var startmutex sync.Mutex
+
 // Start dumps existing registry data
 func (c *PCPClient) Start() error {
 	c.mutex.Lock()
@@ -218,6 +222,10 @@ func (c *PCPClient) Start() error {
 	}
 
 	c.writer = writer
+
+	startmutex.Lock()
+	defer startmutex.Unlock()
+
 	c.start()
 	return nil
 }
-- 
2.43.0


From 7a7b1254df35656e9a5e309e28260debf0e6b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:05 +0000
Subject: [PATCH 17/25] fix: mmvdump: refuse files that are still being written

---
 mmvdump/mmvdump.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index 5b980ca..ee6c217 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -36,6 +36,10 @@ func readHeader(data []byte) (*Header, error) {
 		return nil, errors.Errorf("Mismatched version numbers, %v and %v", header.G1, header.G2)
 	}
 
+	if header.G1 == 0 {
+		return nil, errors.New("incomplete file, it has no generation number yet")
+	}
+
 	return header, nil
 }
 
-- 
2.43.0


From 2e1616f3ba6d01066fa52f2bcc9c3002638774be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:08 +0000
Subject: [PATCH 18/25] fix: mmvdump: report sections that are unknown,
 repeated or outside of the file

---
 mmvdump/mmvdump.go | 67 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 58 insertions(+), 9 deletions(-)

diff --git a/mmvdump/mmvdump.go b/mmvdump/mmvdump.go
index ee6c217..a3f0c1e 100644
--- a/mmvdump/mmvdump.go
+++ b/mmvdump/mmvdump.go
@@ -40,9 +40,27 @@ func readHeader(data []byte) (*Header, error) {
 		return nil, errors.New("incomplete file, it has no generation number yet")
 	}
 
+	if header.Version != 1 && header.Version != 2 {
+		return nil, errors.Errorf("unsupported version: %v", header.Version)
+	}
+
 	return header, nil
 }
 
+// checkRange ensures that count items of the passed length can be stored in
+// data from the passed offset onwards
+func checkRange(data []byte, offset uint64, count int32, length uint64) error {
+	if count < 0 {
+		return errors.Errorf("invalid number of items: %v", count)
+	}
+
+	if size := uint64(len(data)); offset > size || uint64(count) > (size-offset)/length {
+		return errors.Errorf("%v items at offset %v do not fit in the file", count, offset)
+	}
+
+	return nil
+}
+
 func readToc(data []byte, offset uint64) (*Toc, error) {
 	if uint64(len(data)) < offset+TocLength {
 		return nil, errors.New("Incomplete/Partially Written TOC")
@@ -112,6 +130,10 @@ func readString(data []byte, offset uint64, version int32) (interface{}, error)
 }
 
 func readTocs(data []byte, count int32) ([]*Toc, error) {
+	if err := checkRange(data, HeaderLength, count, TocLength); err != nil {
+		return nil, err
+	}
+
 	tocs := make([]*Toc, count)
 
 	for i := int32(0); i < count; i++ {
@@ -125,7 +147,30 @@ func readTocs(data []byte, count int32) ([]*Toc, error) {
 	return tocs, nil
 }
 
+// checkTocs ensures that all sections are known and that none of them is repeated
+func checkTocs(tocs []*Toc) error {
+	seen := make(map[TocType]bool)
+
+	for _, toc := range tocs {
+		if toc.Type < TocIndoms || toc.Type > TocStrings {
+			return errors.Errorf("invalid toc type: %v", toc.Type)
+		}
+
+		if seen[toc.Type] {
+			return errors.Errorf("repeated toc: %v", toc.Type)
+		}
+
+		seen[toc.Type] = true
+	}
+
+	return nil
+}
+
 func readItems(data []byte, offset uint64, count int32, itemlength uint64, readItem itemReaderFunc, version int32) (map[uint64]interface{}, error) {
+	if err := checkRange(data, offset, count, itemlength); err != nil {
+		return nil, err
+	}
+
 	var wg sync.WaitGroup
 	wg.Add(int(count))
 
@@ -138,16 +183,16 @@ func readItems(data []byte, offset uint64, count int32, itemlength uint64, readI
 
 	for i := int32(0); i < count; i, offset = i+1, offset+itemlength {
 		go func(offset uint64) {
-			if err == nil {
-				item, ierr := readItem(data, offset, version)
-				if ierr == nil {
-					m.Lock()
-					items[offset] = item
-					m.Unlock()
-				} else {
-					err = ierr
-				}
+			item, ierr := readItem(data, offset, version)
+
+			m.Lock()
+			if ierr == nil {
+				items[offset] = item
+			} else {
+				err = ierr
 			}
+			m.Unlock()
+
 			wg.Done()
 		}(offset)
 	}
@@ -308,6 +353,10 @@ func Dump(data []byte) (
 		return nil, nil, nil, nil, nil, nil, nil, err
 	}
 
+	if err = checkTocs(tocs); err != nil {
+		return nil, nil, nil, nil, nil, nil, nil, err
+	}
+
 	var ierr, inerr, merr, verr, serr error
 
 	metrics, values, instances, indoms, strings, ierr, inerr, merr, verr, serr = readComponents(data, tocs, h.Version)
-- 
2.43.0


From 3093d4224d2acdf316b1a294f11e2195ba67b364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:43 +0000
Subject: [PATCH 19/25] fix: mmvdump: report references that lead nowhere
 instead of crashing

---
 mmvdump/writer.go | 137 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 105 insertions(+), 32 deletions(-)

diff --git a/mmvdump/writer.go b/mmvdump/writer.go
index 3899532..314983c 100644
--- a/mmvdump/writer.go
+++ b/mmvdump/writer.go
@@ -7,11 +7,19 @@ import (
 	"github.com/pkg/errors"
 )
 
-func instanceName(m Instance, header *Header, strings map[uint64]*String) string {
+func stringAt(offset uint64, strings map[uint64]*String) (string, error) {
+	s, ok := strings[offset]
+	if !ok {
+		return "", errors.Errorf("invalid string address: %v", offset)
+	}
+	return string(s.Payload[:]), nil
+}
+
+func instanceName(m Instance, header *Header, strings map[uint64]*String) (string, error) {
 	if header.Version == 1 {
-		return string(m.(*Instance1).External[:])
+		return string(m.(*Instance1).External[:]), nil
 	}
-	return string(strings[m.(*Instance2).External].Payload[:])
+	return stringAt(m.(*Instance2).External, strings)
 }
 
 func writeInstance(
@@ -22,10 +30,22 @@ func writeInstance(
 	indoms map[uint64]*InstanceDomain,
 	strings map[uint64]*String,
 ) error {
-	i := instances[offset]
-	indom := indoms[i.Indom()]
-	Name := instanceName(i, header, strings)
-	_, err := fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
+	i, ok := instances[offset]
+	if !ok {
+		return errors.Errorf("invalid instance address: %v", offset)
+	}
+
+	indom, ok := indoms[i.Indom()]
+	if !ok {
+		return errors.Errorf("invalid instance domain address: %v", i.Indom())
+	}
+
+	Name, err := instanceName(i, header, strings)
+	if err != nil {
+		return err
+	}
+
+	_, err = fmt.Fprintf(w, "\t[%v/%v] instance = [%v/%v]\n", indom.Serial, offset, i.Internal(), Name)
 	return err
 }
 
@@ -35,7 +55,11 @@ func writeInstanceDomain(
 	indoms map[uint64]*InstanceDomain,
 	strings map[uint64]*String,
 ) error {
-	indom := indoms[offset]
+	indom, ok := indoms[offset]
+	if !ok {
+		return errors.Errorf("invalid instance domain address: %v", offset)
+	}
+
 	_, err := fmt.Fprintf(w, "\t[%v/%v] %d instances, starting at offset %d\n", indom.Serial, offset, indom.Count, indom.Offset)
 	if err != nil {
 		return err
@@ -46,7 +70,12 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[indom.Shorttext].Payload[:])); err != nil {
+		text, err := stringAt(indom.Shorttext, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -56,7 +85,12 @@ func writeInstanceDomain(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[indom.Longtext].Payload[:])); err != nil {
+		text, err := stringAt(indom.Longtext, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -64,11 +98,11 @@ func writeInstanceDomain(
 	return nil
 }
 
-func metricName(m Metric, header *Header, strings map[uint64]*String) string {
+func metricName(m Metric, header *Header, strings map[uint64]*String) (string, error) {
 	if header.Version == 1 {
-		return string(m.(*Metric1).Name[:])
+		return string(m.(*Metric1).Name[:]), nil
 	}
-	return string(strings[m.(*Metric2).Name].Payload[:])
+	return stringAt(m.(*Metric2).Name, strings)
 }
 
 func writeMetric(
@@ -78,14 +112,21 @@ func writeMetric(
 	metrics map[uint64]Metric,
 	strings map[uint64]*String,
 ) error {
-	m := metrics[offset]
-	Name := metricName(m, header, strings)
+	m, ok := metrics[offset]
+	if !ok {
+		return errors.Errorf("invalid metric address: %v", offset)
+	}
+
+	Name, err := metricName(m, header, strings)
+	if err != nil {
+		return err
+	}
 
 	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v\n", m.Item(), offset, Name); err != nil {
 		return err
 	}
 
-	_, err := fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
+	_, err = fmt.Fprintf(w, "\t\ttype=%v (0x%x), sem=%v (0x%x), pad=0x%x\n", m.Typ(), int(m.Typ()), m.Sem(), int(m.Sem()), m.Padding())
 	if err != nil {
 		return err
 	}
@@ -109,7 +150,12 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", string(strings[m.ShortText()].Payload[:])); err != nil {
+		text, err := stringAt(m.ShortText(), strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tshorttext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -119,7 +165,12 @@ func writeMetric(
 			return err
 		}
 	} else {
-		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", string(strings[m.LongText()].Payload[:])); err != nil {
+		text, err := stringAt(m.LongText(), strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "\t\tlongtext=%v\n", text); err != nil {
 			return err
 		}
 	}
@@ -136,17 +187,26 @@ func writeValue(
 	instances map[uint64]Instance,
 	strings map[uint64]*String,
 ) error {
-	v := values[offset]
-	m := metrics[v.Metric]
+	v, ok := values[offset]
+	if !ok {
+		return errors.Errorf("invalid value address: %v", offset)
+	}
+
+	m, ok := metrics[v.Metric]
+	if !ok {
+		return errors.Errorf("invalid metric address: %v", v.Metric)
+	}
 
-	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, metricName(m, header, strings)); err != nil {
+	name, err := metricName(m, header, strings)
+	if err != nil {
 		return err
 	}
 
-	var (
-		a   interface{}
-		err error
-	)
+	if _, err := fmt.Fprintf(w, "\t[%v/%v] %v", m.Item(), offset, name); err != nil {
+		return err
+	}
+
+	var a interface{}
 
 	if m.Typ() != StringType {
 		a, err = FixedVal(v.Val, m.Typ())
@@ -154,16 +214,24 @@ func writeValue(
 			return err
 		}
 	} else {
-		v, ok := strings[uint64(v.Extra)]
-		if !ok {
-			return errors.Errorf("invalid string address")
+		a, err = stringAt(uint64(v.Extra), strings)
+		if err != nil {
+			return err
 		}
-		a = string(v.Payload[:])
 	}
 
 	if m.Indom() != NoIndom && m.Indom() != 0 {
-		i := instances[v.Instance]
-		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), instanceName(i, header, strings)); err != nil {
+		i, ok := instances[v.Instance]
+		if !ok {
+			return errors.Errorf("invalid instance address: %v", v.Instance)
+		}
+
+		name, err := instanceName(i, header, strings)
+		if err != nil {
+			return err
+		}
+
+		if _, err := fmt.Fprintf(w, "[%d or \"%s\"]", i.Internal(), name); err != nil {
 			return err
 		}
 	}
@@ -173,7 +241,12 @@ func writeValue(
 }
 
 func writeString(w io.Writer, offset uint64, strings map[uint64]*String) error {
-	_, err := fmt.Fprintf(w, "\t[%v] %v\n", offset, string(strings[offset].Payload[:]))
+	text, err := stringAt(offset, strings)
+	if err != nil {
+		return err
+	}
+
+	_, err = fmt.Fprintf(w, "\t[%v] %v\n", offset, text)
 	return err
 }
 
-- 
2.43.0


From 3ff81d86b5e0771572dc5baecc21d05d401070f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:45 +0000
Subject: [PATCH 20/25] fix: mmvdump: report short writes

---
 mmvdump/writer.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mmvdump/writer.go b/mmvdump/writer.go
index 314983c..35c8048 100644
--- a/mmvdump/writer.go
+++ b/mmvdump/writer.go
@@ -320,6 +320,17 @@ func writeComponents(
 	return nil
 }
 
+// fullWriter is a writer that reports short writes as errors
+type fullWriter struct{ w io.Writer }
+
+func (f fullWriter) Write(p []byte) (int, error) {
+	n, err := f.w.Write(p)
+	if err == nil && n < len(p) {
+		err = io.ErrShortWrite
+	}
+	return n, err
+}
+
 // Write creates a writable representation of a MMV dump
 // and writes it to the passed writer.
 func Write(
@@ -332,6 +343,8 @@ func Write(
 	indoms map[uint64]*InstanceDomain,
 	strings map[uint64]*String,
 ) error {
+	w = fullWriter{w}
+
 	if _, err := fmt.Fprintf(w, `Version   = %v
 Generated = %v
 Toc Count = %v
-- 
2.43.0


From a225c3051837604eae849595fb76c0d99433803c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:59 +0000
Subject: [PATCH 21/25] fix: a composed unit keeps the dimension it was given

---
 metrics.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metrics.go b/metrics.go
index bed9cd1..1af0314 100644
--- a/metrics.go
+++ b/metrics.go
@@ -170,7 +170,7 @@ func (m *metricUnit) Space(s SpaceUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(s)
+	m.repr |= uint32(s) &^ (0xF << 28)
 	m.repr |= (uint32(dimension) & 0xF) << 28
 	return m
 }
@@ -181,7 +181,7 @@ func (m *metricUnit) Time(t TimeUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(t)
+	m.repr |= uint32(t) &^ (0xF << 24)
 	m.repr |= (uint32(dimension) & 0xF) << 24
 	return m
 }
@@ -192,7 +192,7 @@ func (m *metricUnit) Count(c CountUnit, dimension int8) MetricUnit {
 		panic("dimension has to be between -8 and 7 inclusive")
 	}
 
-	m.repr |= uint32(c)
+	m.repr |= uint32(c) &^ (0xF << 20)
 	m.repr |= (uint32(dimension) & 0xF) << 20
 	return m
 }
-- 
2.43.0


From 270049ea9bba3048d91a0311ca3407d3afd78ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:30 +0000
Subject: [PATCH 22/25] fix: an instance named twice does not stand for another
 one

---
 instance_domain.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/instance_domain.go b/instance_domain.go
index a16f8ac..3c8305e 100644
--- a/instance_domain.go
+++ b/instance_domain.go
@@ -105,17 +105,16 @@ func (indom *PCPInstanceDomain) Instances() []string {
 // MatchInstances returns true if the passed InstanceDomain
 // has exactly the same instances as the passed array
 func (indom *PCPInstanceDomain) MatchInstances(ins []string) bool {
-	if len(ins) != len(indom.instances) {
-		return false
-	}
+	names := make(map[string]bool, len(ins))
 
 	for _, i := range ins {
 		if _, ok := indom.instances[i]; !ok {
 			return false
 		}
+		names[i] = true
 	}
 
-	return true
+	return len(names) == len(indom.instances)
 }
 
 // Description returns the description for PCPInstanceDomain
-- 
2.43.0


From 60ed0e89c7d69abb421adb2e0a8cae86462d5981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:00 +0000
Subject: [PATCH 23/25] fix: mmvdump: a failure to print the first line is
 reported

---
 mmvdump/cmd/mmvdump/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmvdump/cmd/mmvdump/main.go b/mmvdump/cmd/mmvdump/main.go
index 0f709b3..c63af54 100644
--- a/mmvdump/cmd/mmvdump/main.go
+++ b/mmvdump/cmd/mmvdump/main.go
@@ -28,7 +28,9 @@ func main() {
 		panic(err)
 	}
 
-	fmt.Printf("File      = %v\n", file)
+	if _, err := fmt.Printf("File      = %v\n", file); err != nil {
+		panic(err)
+	}
 	if err := mmvdump.Write(os.Stdout, header, tocs, metrics, values, instances, indoms, strings); err != nil {
 		panic(err)
 	}
-- 
2.43.0


From 4c0723492fabeb9bb596eaf75898706ac2d689c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:24 +0000
Subject: [PATCH 24/25] fix: a generation of zero is not written into a
 finished file

---
 client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/client.go b/client.go
index 08503cf..7a47710 100644
--- a/client.go
+++ b/client.go
@@ -309,6 +309,9 @@ func (c *PCPClient) writeHeaderBlock(genc chan int64, g2offc chan int) {
 
 	// generation
 	gen := time.Now().Unix()
+	if gen == 0 {
+		gen = 1 // a generation of 0 is an unfinished file
+	}
 	pos = c.writer.MustWriteInt64(gen, pos)
 
 	g2off := pos
-- 
2.43.0


From 99efc335421c9af11d5b5071781cccd35696c904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:55 +0000
Subject: [PATCH 25/25] fix: a failure to unmap or close does not keep the rest
 from being released

---
 bytewriter/memorymappedwriter.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bytewriter/memorymappedwriter.go b/bytewriter/memorymappedwriter.go
index a85a97e..7aa719e 100644
--- a/bytewriter/memorymappedwriter.go
+++ b/bytewriter/memorymappedwriter.go
@@ -70,12 +70,11 @@ func NewMemoryMappedWriter(loc string, size int) (*MemoryMappedWriter, error) {
 // Unmap will manually delete the memory mapping of a mapped buffer
 func (b *MemoryMappedWriter) Unmap(removefile bool) error {
 	m := mmap.MMap(b.buffer)
-	if err := m.Unmap(); err != nil {
-		return err
-	}
+	uerr := m.Unmap()
 
-	if err := b.handle.Close(); err != nil {
-		return err
+	// whatever fails, the rest is still to be released
+	if err := b.handle.Close(); uerr == nil {
+		uerr = err
 	}
 
 	if removefile {
@@ -84,5 +83,5 @@ func (b *MemoryMappedWriter) Unmap(removefile bool) error {
 		}
 	}
 
-	return nil
+	return uerr
 }
-- 
2.43.0

