From ef0d5ba80506181acf6ab5fec4fc65a3ab16989c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 01/31] fix: Event.Delete of a nested key removed the whole
 top-level field

Delete("a.b") deleted "a" with all of its other children. Remove only
the addressed entry.
---
 pkg/event/event.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index ffebbee..444b6f0 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -131,7 +131,11 @@ func (e *Event) delete(path []string) (deleted *Value) {
 
 	v := e.get(path)
 	if v != nil {
-		delete(e.fields, path[0])
+		m := e.fields
+		for _, key := range path[:len(path)-1] {
+			m = m[key].Object
+		}
+		delete(m, path[len(path)-1])
 	}
 
 	return v
-- 
2.43.0


From ac65217027e60c2e6a6a8f6c52d0741049d7faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 02/31] fix: JSON null decoded to a nil *Value

encoding/json sets pointers to nil for null without calling
UnmarshalJSON. The field then looked missing to Get, and a Get or Put
below it panicked. Decode null to NullValue.
---
 pkg/event/event.go |  1 +
 pkg/event/value.go | 16 ++++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 444b6f0..eed6778 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -150,6 +150,7 @@ func (e *Event) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &fields); err != nil {
 		return err
 	}
+	nilToNull(fields)
 	e.fields = fields
 	return nil
 }
diff --git a/pkg/event/value.go b/pkg/event/value.go
index fd695a8..5660638 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -121,11 +121,17 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		if err = json.Unmarshal(data, &v.Array); err != nil {
 			return err
 		}
+		for i, item := range v.Array {
+			if item == nil {
+				v.Array[i] = NullValue
+			}
+		}
 		v.Type = ArrayType
 	case json.Delim('{'):
 		if err = json.Unmarshal(data, &v.Object); err != nil {
 			return err
 		}
+		nilToNull(v.Object)
 		v.Type = ObjectType
 	default:
 		var value interface{}
@@ -156,6 +162,16 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// nilToNull replaces nil pointers, which is how encoding/json decodes a JSON
+// null into a map of pointers, by NullValue.
+func nilToNull(fields map[string]*Value) {
+	for k, v := range fields {
+		if v == nil {
+			fields[k] = NullValue
+		}
+	}
+}
+
 func Bool(v bool) *Value {
 	return &Value{Type: BoolType, Bool: v}
 }
-- 
2.43.0


From 293b4ff6ee9e2fe0685d37892400403982acb17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 03/31] fix: Put below an object value without a map panicked

Put("a.b", v) assigned to a nil map when "a" held Object(nil).
---
 pkg/event/event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index eed6778..e9355b6 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -81,6 +81,9 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 			if inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
+			if inner.Object == nil {
+				inner.Object = map[string]*Value{}
+			}
 			m = inner.Object
 			continue
 		}
-- 
2.43.0


From 5f296526504b43806c7a4ae680cbfd5292820a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 04/31] fix: an empty event was encoded as JSON null

An event is an object, and null decodes to a nil *Event. Encode an
event without fields as {}.
---
 pkg/event/event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index e9355b6..cc4b7ed 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -145,6 +145,9 @@ func (e *Event) delete(path []string) (deleted *Value) {
 }
 
 func (e *Event) MarshalJSON() ([]byte, error) {
+	if e.fields == nil {
+		return []byte("{}"), nil
+	}
 	return json.Marshal(e.fields)
 }
 
-- 
2.43.0


From e2c0ffe7cbef77040bd322044a966490509439ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:24 +0000
Subject: [PATCH 05/31] fix: Drop and Cancel had no effect on the pipeline

Drop was declared on a value receiver, so the flag was set on a copy,
and nothing read the cancelled flag. Stop processing as soon as an event
is dropped or cancelled, and count drops made without an error.
---
 pkg/pipeline/event.go     |  7 ++++++-
 pkg/pipeline/pipeline.go  |  6 ++++++
 pkg/pipeline/processor.go | 13 +++++++------
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/pkg/pipeline/event.go b/pkg/pipeline/event.go
index 0a7c740..9faae7a 100644
--- a/pkg/pipeline/event.go
+++ b/pkg/pipeline/event.go
@@ -52,6 +52,11 @@ func (e *pipelineEvent) Cancel() {
 	e.cancelled = true
 }
 
-func (e pipelineEvent) Drop() {
+func (e *pipelineEvent) Drop() {
 	e.dropped = true
 }
+
+// done returns true if no further processing is allowed for the event.
+func (e *pipelineEvent) done() bool {
+	return e.cancelled || e.dropped
+}
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 32b138a..ad08868 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -85,6 +85,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 			// Go to global on_failure handler.
 			break
 		}
+		if evt.done() {
+			return nil
+		}
 	}
 
 	if err != nil && len(pipe.onFailure) > 0 {
@@ -93,6 +96,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 				// Failure in global on_failure.
 				return err
 			}
+			if evt.done() {
+				return nil
+			}
 		}
 	}
 
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 31c601f..184f7e6 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -49,12 +49,13 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 	// TODO: Check Condition before executing.
 	p.metricEventsInTotal.Inc()
 
-	if err := p.proc.Process(event); err != nil {
-		if event.dropped {
-			p.metricDiscardedEventsTotal.Inc()
-			return nil
-		}
+	err := p.proc.Process(event)
+	if event.dropped {
+		p.metricDiscardedEventsTotal.Inc()
+		return nil
+	}
 
+	if err != nil {
 		// Ignore Missing
 		if p.IgnoreMissing && errors.Is(err, processor.ErrorKeyMissing{}) {
 			p.metricEventsOutTotal.Inc()
@@ -64,7 +65,7 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 		// On Failure
 		if len(p.OnFailure) > 0 {
 			for _, proc := range p.OnFailure {
-				if err = proc.Process(event); err != nil {
+				if err = proc.Process(event); err != nil || event.done() {
 					break
 				}
 			}
-- 
2.43.0


From da266177ed5366f7759d73c5ba7a7c4ebcf58584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:27 +0000
Subject: [PATCH 06/31] fix: recovered failures were counted as errors

A failure that all on_failure processors handled incremented the errors
counter, which excludes recovered errors, and not the sent counter.
---
 pkg/pipeline/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 184f7e6..c7d359b 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -71,8 +71,8 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 			}
 		}
 
-		// Ignore Failure
-		if p.IgnoreFailure && err != nil {
+		// Recovered by the on_failure processors, or ignored.
+		if p.IgnoreFailure || err == nil {
 			p.metricEventsOutTotal.Inc()
 			return nil
 		}
-- 
2.43.0


From 4341c8ef9503247c822bfd348314f1a6d191a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 07/31] fix: Metrics omitted the pipeline's on_failure
 processors

---
 pkg/pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index ad08868..b2d6d1e 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -130,6 +130,9 @@ func (pipe *Pipeline) visitProcessors(visit func(processor *pipelineProcessor))
 	for _, proc := range pipe.processors {
 		visitProcessor(visit, proc)
 	}
+	for _, proc := range pipe.onFailure {
+		visitProcessor(visit, proc)
+	}
 }
 
 func visitProcessor(visit func(processor *pipelineProcessor), proc *pipelineProcessor) {
-- 
2.43.0


From 4106b198601595bfabb4b93a18e50a922d96ac84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:32 +0000
Subject: [PATCH 08/31] fix: pipeline.New panicked on a nil config

An empty YAML or a JSON null document decodes to a nil *Config.
---
 pkg/pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index b2d6d1e..48efb24 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -32,7 +32,7 @@ type Pipeline struct {
 }
 
 func New(config *Config) (*Pipeline, error) {
-	if config.ID == "" {
+	if config == nil || config.ID == "" {
 		return nil, errors.New("pipeline must have a non-empty id")
 	}
 
-- 
2.43.0


From f7ba00e5f20fdd76c9c90d607ef829dc24b3a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 09/31] fix: set shared one value between all events

The set processor put a pointer to its configured value into every
event, so a later append or nested set changed the configuration and
all other events. copy_from shared the value between both fields, and
copying a field into itself made a cyclic event. Put a deep copy.
---
 pkg/event/value.go           | 22 ++++++++++++++++++++++
 pkg/processor/set/process.go |  4 +++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index 5660638..be48ad6 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -172,6 +172,28 @@ func nilToNull(fields map[string]*Value) {
 	}
 }
 
+// Clone returns a deep copy of the value.
+func (v *Value) Clone() *Value {
+	if v == nil {
+		return nil
+	}
+
+	c := *v
+	if v.Array != nil {
+		c.Array = make([]*Value, len(v.Array))
+		for i, item := range v.Array {
+			c.Array[i] = item.Clone()
+		}
+	}
+	if v.Object != nil {
+		c.Object = make(map[string]*Value, len(v.Object))
+		for k, item := range v.Object {
+			c.Object[k] = item.Clone()
+		}
+	}
+	return &c
+}
+
 func Bool(v bool) *Value {
 	return &Value{Type: BoolType, Bool: v}
 }
diff --git a/pkg/processor/set/process.go b/pkg/processor/set/process.go
index 8275dc9..6a55435 100644
--- a/pkg/processor/set/process.go
+++ b/pkg/processor/set/process.go
@@ -33,6 +33,8 @@ func (p *Set) Process(evt processor.Event) error {
 		}
 	}
 
-	_, err := evt.Put(p.config.TargetField, v)
+	// Clone to not share the value with the config (and thereby with all other
+	// events) or with the copied field.
+	_, err := evt.Put(p.config.TargetField, v.Clone())
 	return err
 }
-- 
2.43.0


From f01b9d079c1002820754c2a0caae37385b02141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 10/31] fix: sawmill printed null for dropped events

---
 cmd/sawmill/sawmill.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/sawmill/sawmill.go b/cmd/sawmill/sawmill.go
index 11a8742..fb7c3f3 100644
--- a/cmd/sawmill/sawmill.go
+++ b/cmd/sawmill/sawmill.go
@@ -142,6 +142,10 @@ func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
 			log.Printf("Error processing line %d: %v", lineNumber, err)
 			continue
 		}
+		if evt == nil {
+			// The event was dropped.
+			continue
+		}
 
 		if err := enc.Encode(evt); err != nil {
 			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
-- 
2.43.0


From d0a8e194414a336b3da97d2e7e67c823bcc8cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 11/31] fix: append ignored scalar fields, its options, and put
 failures

A value appended to a string field was lost and other scalars were
rejected, although scalars are documented to become arrays.
allow_duplicates and ignore_missing had no effect, and a target that
could not be written was silently skipped.
---
 pkg/processor/append/process.go | 36 +++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/pkg/processor/append/process.go b/pkg/processor/append/process.go
index 6186b54..1328cea 100644
--- a/pkg/processor/append/process.go
+++ b/pkg/processor/append/process.go
@@ -26,15 +26,35 @@ import (
 
 func (p *Append) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
-		v = event.Array()
-		evt.Put(p.config.Field, v)
-	} else if v.Type == event.StringType {
-		v = event.Array(v)
-	} else if v.Type != event.ArrayType {
+	if p.config.IgnoreMissing && (v == nil || v.Type == event.NullType) {
+		return processor.ErrorKeyMissing{Key: p.config.Field}
+	}
+
+	var items []*event.Value
+	switch {
+	case v == nil:
+	case v.Type == event.ArrayType:
+		items = append(items, v.Array...)
+	case v.Type == event.ObjectType, v.Type == event.NullType:
 		return errors.New("value to append to is not array")
+	default:
+		items = append(items, v)
+	}
+
+	if p.config.AllowDuplicates || !contains(items, p.config.Value) {
+		items = append(items, event.String(p.config.Value))
 	}
 
-	v.Array = append(v.Array, event.String(p.config.Value))
-	return nil
+	_, err := evt.Put(p.config.Field, event.Array(items...))
+	return err
+}
+
+// contains returns true if any item is a string equal to s.
+func contains(items []*event.Value, s string) bool {
+	for _, item := range items {
+		if item != nil && item.Type == event.StringType && item.String == s {
+			return true
+		}
+	}
+	return false
 }
-- 
2.43.0


From 59d886e466a708481a334d640f25dd19e0a2a1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 12/31] fix: lowercase and uppercase failed on null with
 ignore_missing

ignore_missing is documented to cover fields that do not exist or are
null.
---
 pkg/processor/lowercase/process.go | 2 +-
 pkg/processor/uppercase/process.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/processor/lowercase/process.go b/pkg/processor/lowercase/process.go
index 2281c89..96bd8ee 100644
--- a/pkg/processor/lowercase/process.go
+++ b/pkg/processor/lowercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Lowercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
diff --git a/pkg/processor/uppercase/process.go b/pkg/processor/uppercase/process.go
index 49e87f4..948a70c 100644
--- a/pkg/processor/uppercase/process.go
+++ b/pkg/processor/uppercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Uppercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
-- 
2.43.0


From dce9f66bc5f96505ec5c670e6c9fed70a03a1222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 13/31] fix: the remove processor did nothing

---
 pkg/processor/remove/process.go | 29 +++++++++++++++++++++++++++++
 pkg/processor/remove/remove.go  |  5 -----
 2 files changed, 29 insertions(+), 5 deletions(-)
 create mode 100644 pkg/processor/remove/process.go

diff --git a/pkg/processor/remove/process.go b/pkg/processor/remove/process.go
new file mode 100644
index 0000000..f778bab
--- /dev/null
+++ b/pkg/processor/remove/process.go
@@ -0,0 +1,29 @@
+// Licensed to Elasticsearch B.V. under one or more contributor
+// license agreements. See the NOTICE file distributed with
+// this work for additional information regarding copyright
+// ownership. Elasticsearch B.V. licenses this file to you under
+// the Apache License, Version 2.0 (the "License"); you may
+// not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing,
+// software distributed under the License is distributed on an
+// "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+// KIND, either express or implied.  See the License for the
+// specific language governing permissions and limitations
+// under the License.
+
+package remove
+
+import "github.com/andrewkroh/go-sawmill/pkg/processor"
+
+func (p *Remove) Process(evt processor.Event) error {
+	for _, field := range p.config.Fields {
+		if evt.Delete(field) == nil && !p.config.IgnoreMissing {
+			return processor.ErrorKeyMissing{Key: field}
+		}
+	}
+	return nil
+}
diff --git a/pkg/processor/remove/remove.go b/pkg/processor/remove/remove.go
index 4d3965d..2b88a7a 100644
--- a/pkg/processor/remove/remove.go
+++ b/pkg/processor/remove/remove.go
@@ -65,8 +65,3 @@ func (p *Remove) Config() Config {
 func (p *Remove) String() string {
 	return processor.ConfigString(processorName, p.config)
 }
-
-func (p *Remove) Process(event processor.Event) error {
-	// TODO: Implement this in process.go.
-	return nil
-}
-- 
2.43.0


From d9615298a633791f3119a863d3a787bbf3ec27c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 14/31] fix: ReflectValue rejected interface fields and
 panicked on nil errors

A struct field of an interface type was an unsupported type, a nil
pointer or nil interface of a type implementing error panicked, and
named uintptr types were unsupported.
---
 pkg/eventutil/reflect.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index b0b6d5b..46f6550 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -100,6 +100,13 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	typ := rv.Type()
 
+	switch typ.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if rv.IsNil() {
+			return event.NullValue, nil
+		}
+	}
+
 	switch {
 	case typ.Implements(errorInterface):
 		err := rv.Interface().(error)
@@ -107,16 +114,13 @@ func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	}
 
 	switch typ.Kind() {
-	case reflect.Ptr:
-		if rv.IsNil() {
-			return event.NullValue, nil
-		}
+	case reflect.Ptr, reflect.Interface:
 		return reflectToValue(rv.Elem())
 	case reflect.Bool:
 		return event.Bool(rv.Bool()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return event.Integer(rv.Int()), nil
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return event.UnsignedInteger(rv.Uint()), nil
 	case reflect.Float32, reflect.Float64:
 		return event.Float(rv.Float()), nil
-- 
2.43.0


From af0212b0876c4119b9f82b07bda62586305890d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 15/31] fix: nested names with dots got a backslash

Escaping applies to keys passed to Event methods. Stored in a nested
object, the escaped name is a different field that no key can address,
and it did not survive a round trip.
---
 pkg/eventutil/reflect.go               | 2 +-
 pkg/serialization/protobuf/protobuf.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index 46f6550..7a07332 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -87,7 +87,7 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 				return nil, fmt.Errorf("failed on key %q: %w", k, err)
 			}
 
-			obj[EscapeKey(k)] = v
+			obj[k] = v
 		}
 		return event.Object(obj), nil
 	case nil:
diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index e41c310..fac93c9 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -158,7 +158,7 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Object:
 		fields := make(map[string]*event.Value, len(t.Object.Fields))
 		for k, v := range t.Object.Fields {
-			fields[eventutil.EscapeKey(k)] = toEventValue(v)
+			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
 	case *Value_String_:
-- 
2.43.0


From 2eb0870bd08a4bd44956df7c2789bccadadbfc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:51 +0000
Subject: [PATCH 16/31] fix: ToEvent silently dropped entries whose key cannot
 name a field

---
 pkg/serialization/mapinterface/mapinterface.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/serialization/mapinterface/mapinterface.go b/pkg/serialization/mapinterface/mapinterface.go
index 99c769e..6ec73eb 100644
--- a/pkg/serialization/mapinterface/mapinterface.go
+++ b/pkg/serialization/mapinterface/mapinterface.go
@@ -46,7 +46,9 @@ func ToEvent(m map[string]interface{}) (*event.Event, error) {
 
 	evt := event.New()
 	for k, v := range fields.Object {
-		evt.Put(eventutil.EscapeKey(k), v)
+		if _, err = evt.Put(eventutil.EscapeKey(k), v); err != nil {
+			return nil, fmt.Errorf("failed on key %q: %w", k, err)
+		}
 	}
 
 	return evt, nil
-- 
2.43.0


From 7212c96dc3f9da380811b1ecf792f46b39ae0060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:54 +0000
Subject: [PATCH 17/31] fix: empty events and nil values were lost in protocol
 buffers

An empty event decoded to a nil *Event, and a nil value was encoded
without a kind, which ToLogEvent does not accept.
---
 pkg/serialization/protobuf/protobuf.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index fac93c9..b9e6ea7 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -30,15 +30,24 @@ func FromEvent(evt *event.Event) *MessageWrapper {
 	return &MessageWrapper{
 		Message: &MessageWrapper_Log{
 			Log: &Log{
-				Object: fromEventValueObject(evt.Get(".")),
+				Object: fromEventRoot(evt),
 			},
 		},
 	}
 }
 
+func fromEventRoot(evt *event.Event) *ValueObject {
+	root := evt.Get(".")
+	if root == nil {
+		// Empty event.
+		return &ValueObject{}
+	}
+	return fromEventValueObject(root)
+}
+
 func fromEventValue(v *event.Value) *Value {
 	if v == nil {
-		return nil
+		v = event.NullValue
 	}
 
 	switch v.Type {
-- 
2.43.0


From f32175f17d7386181fd2b29ade961a30e28e19ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 18/31] fix: ToLogEvent panicked on values without a kind

The schema allows a Value without a kind, so a decoded message can hold
one. Read it as null.
---
 pkg/serialization/protobuf/protobuf.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index b9e6ea7..0aeffdf 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -150,11 +150,12 @@ func ToLogEvent(l *Log) *event.Event {
 
 func toEventValue(v *Value) *event.Value {
 	switch t := v.GetKind().(type) {
-	case *Value_Null:
+	case *Value_Null, nil:
+		// A value without a kind is valid on the wire.
 		return event.NullValue
 	case *Value_Array:
-		items := make([]*event.Value, 0, len(t.Array.Items))
-		for _, x := range t.Array.Items {
+		items := make([]*event.Value, 0, len(t.Array.GetItems()))
+		for _, x := range t.Array.GetItems() {
 			items = append(items, toEventValue(x))
 		}
 		return event.Array(items...)
@@ -165,8 +166,8 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Integer:
 		return event.Integer(t.Integer)
 	case *Value_Object:
-		fields := make(map[string]*event.Value, len(t.Object.Fields))
-		for k, v := range t.Object.Fields {
+		fields := make(map[string]*event.Value, len(t.Object.GetFields()))
+		for k, v := range t.Object.GetFields() {
 			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
-- 
2.43.0


From 1e626901e0f3c8dacf58cff978beac39b1ba98bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 19/31] fix: ToLogEvent changed root names with a backslash and
 lost empty ones

Root names were passed through the dotted key syntax, in which a
backslash is dropped and an empty name is an error.
---
 pkg/event/event.go                     | 6 ++++++
 pkg/serialization/protobuf/protobuf.go | 7 +++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index cc4b7ed..90b6697 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -39,6 +39,12 @@ func New() *Event {
 	return &Event{}
 }
 
+// FromFields returns a new Event with the given root fields. The names are
+// taken literally, they are not interpreted as dotted keys.
+func FromFields(fields map[string]*Value) *Event {
+	return &Event{fields: fields}
+}
+
 func (e *Event) init() {
 	e.fields = map[string]*Value{}
 }
diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index 0aeffdf..84a576c 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -21,7 +21,6 @@ import (
 	"fmt"
 
 	"github.com/andrewkroh/go-sawmill/pkg/event"
-	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
 )
 
 // FromEvent returns a protocol buffer message containing the log
@@ -141,11 +140,11 @@ func ToLogEvent(l *Log) *event.Event {
 		return nil
 	}
 
-	evt := event.New()
+	fields := make(map[string]*event.Value, len(l.Object.Fields))
 	for k, v := range l.Object.Fields {
-		evt.Put(eventutil.EscapeKey(k), toEventValue(v))
+		fields[k] = toEventValue(v)
 	}
-	return evt
+	return event.FromFields(fields)
 }
 
 func toEventValue(v *Value) *event.Value {
-- 
2.43.0


From 6961617706e8ad9df6715b20f1ba5641b2a2c3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 20/31] fix: Register panicked on nil

---
 pkg/processor/registry/registry.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index e641d2a..52b0151 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -96,11 +96,10 @@ func (r *Registry) clear() {
 
 func validateConfig(i interface{}) (*processorConstructor, error) {
 	v := reflect.ValueOf(i)
-	t := v.Type()
-
-	if t.Kind() != reflect.Func {
-		return nil, fmt.Errorf("value must be a function, but got %v", t.Kind())
+	if v.Kind() != reflect.Func || v.IsNil() {
+		return nil, fmt.Errorf("value must be a function, but got %v", v.Kind())
 	}
+	t := v.Type()
 
 	// Check config.
 	if t.NumIn() != 1 {
-- 
2.43.0


From ed7bf126483a8a8e77bea54470d1d82ce13c3856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 21/31] fix: community_id rejected documented seeds above 32767

The seed is documented to be between 0 and 65535, but was an int16.
---
 docs/README.md                             | 2 +-
 pkg/processor/community_id/community_id.go | 2 +-
 pkg/processor/processors.yml               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/README.md b/docs/README.md
index 43d7884..07f45ff 100644
--- a/docs/README.md
+++ b/docs/README.md
@@ -83,7 +83,7 @@ configuration is required.
 | icmp_code |  | x | string | icmp.code | Field containing the ICMP code. |
 | icmp_type |  | x | string | icmp.type | Field containing the ICMP type. |
 | ignore_failure |  | x | bool |  | Ignore failures for the processor. |
-| seed |  | x | int16 |  | Seed for the community ID hash. Must be between 0 and 65535 (inclusive). The seed can prevent hash collisions between network domains, such as a staging and production network that use the same addressing scheme. |
+| seed |  | x | uint16 |  | Seed for the community ID hash. Must be between 0 and 65535 (inclusive). The seed can prevent hash collisions between network domains, such as a staging and production network that use the same addressing scheme. |
 | source_ip |  | x | string | source.ip | Field containing the source IP address. |
 | source_port |  | x | string | source.port | Field containing the source port. |
 | target_field |  | x | string | network.community_id | The field to assign the output value to, by default field is updated in-place. |
diff --git a/pkg/processor/community_id/community_id.go b/pkg/processor/community_id/community_id.go
index 1101b1b..a0d2d28 100644
--- a/pkg/processor/community_id/community_id.go
+++ b/pkg/processor/community_id/community_id.go
@@ -55,7 +55,7 @@ type Config struct {
 	// (inclusive). The seed can prevent hash collisions between network
 	// domains, such as a staging and production network that use the same
 	// addressing scheme.
-	Seed int16 `config:"seed"`
+	Seed uint16 `config:"seed"`
 
 	// Field containing the source IP address.
 	SourceIP string `config:"source_ip"`
diff --git a/pkg/processor/processors.yml b/pkg/processor/processors.yml
index 9667927..98d7037 100644
--- a/pkg/processor/processors.yml
+++ b/pkg/processor/processors.yml
@@ -118,7 +118,7 @@ processors:
             Field containing the transport protocol. Used only when the
             iana_number field is not present.
         - name: seed
-          type: int16
+          type: uint16
           optional: true
           default: 0
           description: |-
-- 
2.43.0


From bec5c16a03829d62809d003492286542c6ac867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 22/31] fix: empty arrays and objects without storage encoded
 as JSON null

---
 pkg/event/value.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index be48ad6..068b3f2 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -106,6 +106,12 @@ func (v *Value) Format(f fmt.State, verb rune) {
 func (v *Value) MarshalJSON() ([]byte, error) {
 	// TODO: Replace this with an optimized version. There are a finite
 	// set of types so we can optimize this to avoid reflection.
+	switch {
+	case v.Type == ArrayType && v.Array == nil:
+		return []byte("[]"), nil
+	case v.Type == ObjectType && v.Object == nil:
+		return []byte("{}"), nil
+	}
 	return json.Marshal(v.value())
 }
 
-- 
2.43.0


From 6d0719ed31bb37437c6437119673dc9652027a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 23/31] fix: processor options like "ID" were taken for
 reserved keys in JSON

---
 pkg/pipeline/config.go | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/pkg/pipeline/config.go b/pkg/pipeline/config.go
index daa5fe2..52e4dd7 100644
--- a/pkg/pipeline/config.go
+++ b/pkg/pipeline/config.go
@@ -61,16 +61,27 @@ func (c ProcessorConfig) getProcessor() (name string, opts *ProcessorOptionConfi
 // UnmarshalJSON contains a workaround for the lack of inline tag support in
 // encoding/json.
 func (c *ProcessorOptionConfig) UnmarshalJSON(data []byte) error {
-	// Prevent another call in this UnmarshalJSON.
-	type opts ProcessorOptionConfig
-	if err := json.Unmarshal(data, (*opts)(c)); err != nil {
-		return err
-	}
-
-	var raw map[string]interface{}
+	// Take the reserved keys by their exact name. encoding/json would match
+	// struct fields case-insensitively and take options like "ID" for them.
+	var raw map[string]json.RawMessage
 	if err := json.Unmarshal(data, &raw); err != nil {
 		return err
 	}
+	if v, found := raw["id"]; found {
+		if err := json.Unmarshal(v, &c.ID); err != nil {
+			return err
+		}
+	}
+	if v, found := raw["if"]; found {
+		if err := json.Unmarshal(v, &c.If); err != nil {
+			return err
+		}
+	}
+	if v, found := raw["on_failure"]; found {
+		if err := json.Unmarshal(v, &c.OnFailure); err != nil {
+			return err
+		}
+	}
 	delete(raw, "id")
 	delete(raw, "if")
 	delete(raw, "on_failure")
@@ -79,7 +90,11 @@ func (c *ProcessorOptionConfig) UnmarshalJSON(data []byte) error {
 		c.Config = make(map[string]interface{}, len(raw))
 	}
 	for k, v := range raw {
-		c.Config[k] = v
+		var option interface{}
+		if err := json.Unmarshal(v, &option); err != nil {
+			return err
+		}
+		c.Config[k] = option
 	}
 	return nil
 }
-- 
2.43.0


From e1644959043a41cc4a73d7e8fdb22641f3f83ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 24/31] fix: README listed one random processor of a list entry
 with several

The loop stopped after the first entry of the map. Also check the error of
ExecuteTemplate.
---
 docs/generate/generate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/docs/generate/generate.go b/docs/generate/generate.go
index d2111a6..4eeb4bd 100644
--- a/docs/generate/generate.go
+++ b/docs/generate/generate.go
@@ -79,7 +79,6 @@ func main() {
 				Name:      name,
 				Processor: proc,
 			})
-			break
 		}
 	}
 	sort.Slice(templateData.Processors, func(i, j int) bool {
@@ -88,7 +87,7 @@ func main() {
 
 	// Render template.
 	buf := new(bytes.Buffer)
-	if templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
+	if err = templates.ExecuteTemplate(buf, "README.md.gotmpl", templateData); err != nil {
 		log.Fatal(err)
 	}
 
-- 
2.43.0


From f1ffe4aaa6153504e4df82d24d6a57ec903f8291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:35 +0000
Subject: [PATCH 25/31] fix: pipes and line breaks in options broke the
 README's tables

---
 docs/generate/assets/processor.md.gotmpl | 2 +-
 internal/proctemplate/funcs.go           | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/docs/generate/assets/processor.md.gotmpl b/docs/generate/assets/processor.md.gotmpl
index d3ea3e3..923094c 100644
--- a/docs/generate/assets/processor.md.gotmpl
+++ b/docs/generate/assets/processor.md.gotmpl
@@ -5,5 +5,5 @@
 | Option | Required | Optional | Type | Default | Description |
 |--------|----------|----------|------|---------|-------------|
 {{ range $o := .Configuration -}}
-| {{$o.Name}} | {{bool_to_x $o.Required}} | {{bool_to_x $o.Optional}} | {{$o.Type}} | {{if $o.Default}}{{$o.Default}}{{end}} | {{replace $o.Description "\n" " " }} |
+| {{$o.Name}} | {{bool_to_x $o.Required}} | {{bool_to_x $o.Optional}} | {{$o.Type}} | {{if $o.Default}}{{table_cell $o.Default}}{{end}} | {{table_cell $o.Description}} |
 {{ end }}
diff --git a/internal/proctemplate/funcs.go b/internal/proctemplate/funcs.go
index 2581b13..6247f20 100644
--- a/internal/proctemplate/funcs.go
+++ b/internal/proctemplate/funcs.go
@@ -40,6 +40,7 @@ var TemplateFuncs = template.FuncMap{
 	"trim_import":         trimImportPrefix,
 	"bool_to_x":           boolToX,
 	"replace":             strings.ReplaceAll,
+	"table_cell":          tableCell,
 }
 
 // descriptionToComment builds a comment string that is wrapped at 80 chars.
@@ -159,3 +160,11 @@ func boolToX(b bool) string {
 	}
 	return ""
 }
+
+// tableCellReplacer replaces what would end a cell or row of a Markdown table.
+var tableCellReplacer = strings.NewReplacer("\r\n", " ", "\n", " ", "\r", " ", "|", `\|`)
+
+// tableCell formats a value as the content of a Markdown table cell.
+func tableCell(v interface{}) string {
+	return tableCellReplacer.Replace(fmt.Sprint(v))
+}
-- 
2.43.0


From 9190997301f0b2135172fd2d2721f7492a74844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:59 +0000
Subject: [PATCH 26/31] fix: decoding JSON into a used Value changed its
 elements in place, even the shared null, and kept old content

---
 pkg/event/value.go | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index 068b3f2..10933d1 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -122,23 +122,27 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		return err
 	}
 
+	// Decode into new variables because encoding/json would reuse the existing
+	// elements of v, which can be shared (NullValue is).
 	switch tok {
 	case json.Delim('['):
-		if err = json.Unmarshal(data, &v.Array); err != nil {
+		var array []*Value
+		if err = json.Unmarshal(data, &array); err != nil {
 			return err
 		}
-		for i, item := range v.Array {
+		for i, item := range array {
 			if item == nil {
-				v.Array[i] = NullValue
+				array[i] = NullValue
 			}
 		}
-		v.Type = ArrayType
+		*v = Value{Type: ArrayType, Array: array}
 	case json.Delim('{'):
-		if err = json.Unmarshal(data, &v.Object); err != nil {
+		var object map[string]*Value
+		if err = json.Unmarshal(data, &object); err != nil {
 			return err
 		}
-		nilToNull(v.Object)
-		v.Type = ObjectType
+		nilToNull(object)
+		*v = Value{Type: ObjectType, Object: object}
 	default:
 		var value interface{}
 		if err = json.Unmarshal(data, &value); err != nil {
@@ -147,19 +151,15 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 
 		switch x := value.(type) {
 		case string:
-			v.Type = StringType
-			v.String = x
+			*v = Value{Type: StringType, String: x}
 		case float64:
-			v.Type = FloatType
-			v.Float = x
+			*v = Value{Type: FloatType, Float: x}
 		case int64:
-			v.Type = IntegerType
-			v.Integer = x
+			*v = Value{Type: IntegerType, Integer: x}
 		case bool:
-			v.Type = BoolType
-			v.Bool = x
+			*v = Value{Type: BoolType, Bool: x}
 		case nil:
-			v.Type = NullType
+			*v = Value{Type: NullType}
 		default:
 			return fmt.Errorf("unhandled type %T for value %q", x, string(data))
 		}
-- 
2.43.0


From a5fd91d5cc067258ee0b8fbc9905b52eed8bdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 27/31] fix: YAML timestamps in processor options were dropped
 or rejected

---
 pkg/pipeline/config.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/pkg/pipeline/config.go b/pkg/pipeline/config.go
index 52e4dd7..a2d7a19 100644
--- a/pkg/pipeline/config.go
+++ b/pkg/pipeline/config.go
@@ -20,6 +20,8 @@ package pipeline
 import (
 	"encoding/json"
 	"errors"
+
+	"gopkg.in/yaml.v3"
 )
 
 type Config struct {
@@ -58,6 +60,30 @@ func (c ProcessorConfig) getProcessor() (name string, opts *ProcessorOptionConfi
 	return "", nil, errors.New("unexpected number of keys in processor")
 }
 
+// UnmarshalYAML reads timestamps as the strings they are written as, which is
+// how JSON has them. Processor options cannot hold a time.Time.
+func (c *ProcessorOptionConfig) UnmarshalYAML(n *yaml.Node) error {
+	timestampsToStrings(n, map[*yaml.Node]bool{})
+
+	type plain ProcessorOptionConfig
+	return n.Decode((*plain)(c))
+}
+
+func timestampsToStrings(n *yaml.Node, visited map[*yaml.Node]bool) {
+	if n == nil || visited[n] {
+		return
+	}
+	visited[n] = true
+
+	if n.Kind == yaml.ScalarNode && n.ShortTag() == "!!timestamp" {
+		n.Tag = "!!str"
+	}
+	for _, child := range n.Content {
+		timestampsToStrings(child, visited)
+	}
+	timestampsToStrings(n.Alias, visited)
+}
+
 // UnmarshalJSON contains a workaround for the lack of inline tag support in
 // encoding/json.
 func (c *ProcessorOptionConfig) UnmarshalJSON(data []byte) error {
-- 
2.43.0


From 3df62d9c9f00c99d274408786ddb3bfb4067a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 28/31] fix: reading or writing below a nil field panicked

---
 pkg/event/event.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 90b6697..42c9e40 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -82,8 +82,8 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
-		inner, found := m[key]
-		if found {
+		// A nil field is a missing one, as for Get.
+		if inner := m[key]; inner != nil {
 			if inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
@@ -118,8 +118,8 @@ func (e *Event) get(path []string) *Value {
 
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
-		inner, found := m[key]
-		if !found || len(inner.Object) == 0 {
+		inner := m[key]
+		if inner == nil || len(inner.Object) == 0 {
 			return nil
 		}
 		m = inner.Object
-- 
2.43.0


From f883abaa7ffe16341ac21f4fb7c4e4376e854719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:12 +0000
Subject: [PATCH 29/31] fix: profiles were cut off when the sawmill command
 failed

---
 cmd/sawmill/sawmill.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cmd/sawmill/sawmill.go b/cmd/sawmill/sawmill.go
index fb7c3f3..7f3eacb 100644
--- a/cmd/sawmill/sawmill.go
+++ b/cmd/sawmill/sawmill.go
@@ -63,6 +63,13 @@ func main() {
 	log.SetFlags(0)
 	flag.Parse()
 
+	if err := run(); err != nil {
+		log.Fatal("Error:", err)
+	}
+}
+
+// run returns errors instead of exiting so that the profiles get flushed.
+func run() error {
 	if cpuProfile != "" {
 		bw, flush := bufferedFileWriter(cpuProfile)
 		pprof.StartCPUProfile(bw)
@@ -83,21 +90,19 @@ func main() {
 
 	c, err := loadPipeline(pipelineFile)
 	if err != nil {
-		log.Fatal("Error:", err)
+		return err
 	}
 
 	p, err := pipeline.New(c)
 	if err != nil {
-		log.Fatal("Error:", err)
+		return err
 	}
 
 	metrics.Register(p.Metrics()...)
 	defer metrics.Unregister(p.Metrics()...)
 	metrics.Listen(metricsListenAddr)
 
-	if err := processInput(os.Stdin, os.Stdout, p); err != nil {
-		log.Fatal("Error:", err)
-	}
+	return processInput(os.Stdin, os.Stdout, p)
 }
 
 func loadPipeline(path string) (*pipeline.Config, error) {
-- 
2.43.0


From 25fc0c63c05ce86f67bd4129ff69adae296b565f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:38 +0000
Subject: [PATCH 30/31] fix: long descriptions were corrupted in generated code

The lines of descriptions were kept in the scanner's buffer, which the
scanner overwrites after its first 4096 bytes.
---
 internal/proctemplate/funcs.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/proctemplate/funcs.go b/internal/proctemplate/funcs.go
index 6247f20..37502d4 100644
--- a/internal/proctemplate/funcs.go
+++ b/internal/proctemplate/funcs.go
@@ -19,7 +19,6 @@ package proctemplate
 
 import (
 	"bufio"
-	"bytes"
 	"fmt"
 	"strconv"
 	"strings"
@@ -63,15 +62,16 @@ func descriptionToComment(indent, desc string) (string, error) {
 }
 
 func trimTrailingWhitespace(text string) (string, error) {
-	var lines [][]byte
-	s := bufio.NewScanner(bytes.NewBufferString(text))
+	var lines []string
+	s := bufio.NewScanner(strings.NewReader(text))
 	for s.Scan() {
-		lines = append(lines, bytes.TrimRightFunc(s.Bytes(), unicode.IsSpace))
+		// Text copies, the scanner reuses the memory of Bytes.
+		lines = append(lines, strings.TrimRightFunc(s.Text(), unicode.IsSpace))
 	}
 	if err := s.Err(); err != nil {
 		return "", err
 	}
-	return string(bytes.Join(lines, []byte("\n"))), nil
+	return strings.Join(lines, "\n"), nil
 }
 
 // goTypeName removes special characters ('_', '.', '@') and returns a
-- 
2.43.0


From ab249ac2c515ad00d78a2b2fcb0bc516f2dc28aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:46 +0000
Subject: [PATCH 31/31] fix: registering a processor called its constructor

The result was not used, and a constructor that cannot do with an empty
configuration made the registration panic.
---
 pkg/processor/registry/registry.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index 52b0151..6768c85 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -141,7 +141,6 @@ func validateConfig(i interface{}) (*processorConstructor, error) {
 			return out[0].Interface().(processor.Processor), nil
 		},
 	}
-	v.Call([]reflect.Value{reflect.New(configType).Elem()})
 
 	// TODO: Validate that each processor implements a 'Conifg() struct' method.
 	return pc, nil
-- 
2.43.0

