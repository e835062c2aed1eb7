From ca53921881bcb30d7f947a85508a432ef4fff911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 01/30] fix: Event.Delete of a nested key removes only that key

It removed the whole top-level key that contained it.
---
 pkg/event/event.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index ffebbee..96f5314 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -129,9 +129,19 @@ func (e *Event) delete(path []string) (deleted *Value) {
 		return nil
 	}
 
-	v := e.get(path)
+	m := e.fields
+	for _, key := range path[:len(path)-1] {
+		inner := m[key]
+		if inner == nil {
+			return nil
+		}
+		m = inner.Object
+	}
+
+	name := path[len(path)-1]
+	v := m[name]
 	if v != nil {
-		delete(e.fields, path[0])
+		delete(m, name)
 	}
 
 	return v
-- 
2.43.0


From fecf7643875d2d8b4cb32bc31136cc17bc4019ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 02/30] fix: decode JSON null as a null value instead of a nil
 pointer

Get, Put and Delete below a key that held JSON null dereferenced nil.
---
 pkg/event/event.go |  1 +
 pkg/event/value.go | 15 +++++++++++++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 96f5314..ac14841 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -156,6 +156,7 @@ func (e *Event) UnmarshalJSON(data []byte) error {
 	if err := json.Unmarshal(data, &fields); err != nil {
 		return err
 	}
+	nilToNull(fields)
 	e.fields = fields
 	return nil
 }
diff --git a/pkg/event/value.go b/pkg/event/value.go
index fd695a8..4d5999a 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -121,11 +121,17 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		if err = json.Unmarshal(data, &v.Array); err != nil {
 			return err
 		}
+		for i, item := range v.Array {
+			if item == nil {
+				v.Array[i] = &Value{Type: NullType}
+			}
+		}
 		v.Type = ArrayType
 	case json.Delim('{'):
 		if err = json.Unmarshal(data, &v.Object); err != nil {
 			return err
 		}
+		nilToNull(v.Object)
 		v.Type = ObjectType
 	default:
 		var value interface{}
@@ -156,6 +162,15 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 	return nil
 }
 
+// nilToNull replaces the nil pointers that encoding/json stores for JSON nulls.
+func nilToNull(m map[string]*Value) {
+	for k, v := range m {
+		if v == nil {
+			m[k] = &Value{Type: NullType}
+		}
+	}
+}
+
 func Bool(v bool) *Value {
 	return &Value{Type: BoolType, Bool: v}
 }
-- 
2.43.0


From 958ef968f416f7f2d3650ba7ddff51f97b6e77b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:40 +0000
Subject: [PATCH 03/30] fix: Put below an object value that has a nil map does
 not panic

---
 pkg/event/event.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index ac14841..7fa708b 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -81,6 +81,9 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 			if inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
+			if inner.Object == nil {
+				inner.Object = map[string]*Value{}
+			}
 			m = inner.Object
 			continue
 		}
-- 
2.43.0


From 9d27585a9b223afa69ba53c2dfc97c73e3b6e9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:41 +0000
Subject: [PATCH 04/30] fix: decode JSON integers exactly

They became float64, which silently rounds integers beyond 2^53.
---
 pkg/event/value.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index 4d5999a..0d866b9 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -21,6 +21,8 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
+	"strconv"
 )
 
 var NullValue = &Value{Type: NullType}
@@ -111,6 +113,7 @@ func (v *Value) MarshalJSON() ([]byte, error) {
 
 func (v *Value) UnmarshalJSON(data []byte) error {
 	dec := json.NewDecoder(bytes.NewReader(data))
+	dec.UseNumber()
 	tok, err := dec.Token()
 	if err != nil {
 		return err
@@ -134,21 +137,26 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		nilToNull(v.Object)
 		v.Type = ObjectType
 	default:
-		var value interface{}
-		if err = json.Unmarshal(data, &value); err != nil {
-			return err
-		}
-
-		switch x := value.(type) {
+		switch x := tok.(type) {
 		case string:
 			v.Type = StringType
 			v.String = x
-		case float64:
-			v.Type = FloatType
-			v.Float = x
-		case int64:
-			v.Type = IntegerType
-			v.Integer = x
+		case json.Number:
+			// Integers must keep their exact value.
+			if i, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
+				v.Type = IntegerType
+				v.Integer = i
+			} else if u, err := strconv.ParseUint(x.String(), 10, 64); err == nil {
+				v.Type = UnsignedIntegerType
+				v.UnsignedInteger = u
+			} else {
+				f, err := x.Float64()
+				if err != nil {
+					return err
+				}
+				v.Type = FloatType
+				v.Float = f
+			}
 		case bool:
 			v.Type = BoolType
 			v.Bool = x
@@ -157,6 +165,10 @@ func (v *Value) UnmarshalJSON(data []byte) error {
 		default:
 			return fmt.Errorf("unhandled type %T for value %q", x, string(data))
 		}
+
+		if _, err = dec.Token(); err != io.EOF {
+			return fmt.Errorf("unexpected data after value %q", string(data))
+		}
 	}
 
 	return nil
-- 
2.43.0


From 18dcd823f9fbc1bd582b22f51866d1ba04c4db40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 05/30] fix: keep dotted map keys as they are when converting
 to event values

Object keys are literal names; only the paths given to Put and Get are
escaped, so nested keys came out with an extra backslash.
---
 pkg/eventutil/reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index b0b6d5b..274f5d2 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -87,7 +87,7 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 				return nil, fmt.Errorf("failed on key %q: %w", k, err)
 			}
 
-			obj[EscapeKey(k)] = v
+			obj[k] = v
 		}
 		return event.Object(obj), nil
 	case nil:
-- 
2.43.0


From 31f88a686cd0d075102c7f154feeeac2a3bb75a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 06/30] fix: convert nil error pointers, interface fields and
 named uintptrs

A nil pointer to an error type called Error on nil, and struct fields of
interface type or a defined uintptr type were reported as unsupported.
---
 pkg/eventutil/reflect.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index 274f5d2..df29bd0 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -100,6 +100,13 @@ func interfaceToValue(ifc interface{}) (*event.Value, error) {
 func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	typ := rv.Type()
 
+	switch typ.Kind() {
+	case reflect.Ptr, reflect.Interface:
+		if rv.IsNil() {
+			return event.NullValue, nil
+		}
+	}
+
 	switch {
 	case typ.Implements(errorInterface):
 		err := rv.Interface().(error)
@@ -108,15 +115,14 @@ func reflectToValue(rv reflect.Value) (*event.Value, error) {
 
 	switch typ.Kind() {
 	case reflect.Ptr:
-		if rv.IsNil() {
-			return event.NullValue, nil
-		}
 		return reflectToValue(rv.Elem())
+	case reflect.Interface:
+		return interfaceToValue(rv.Elem().Interface())
 	case reflect.Bool:
 		return event.Bool(rv.Bool()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		return event.Integer(rv.Int()), nil
-	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return event.UnsignedInteger(rv.Uint()), nil
 	case reflect.Float32, reflect.Float64:
 		return event.Float(rv.Float()), nil
-- 
2.43.0


From 724e1a6d22a88306b616bed564fd7bec76a9f5ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 07/30] fix: keep dotted nested keys as they are when decoding
 protobuf

---
 pkg/serialization/protobuf/protobuf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index e41c310..fac93c9 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -158,7 +158,7 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Object:
 		fields := make(map[string]*event.Value, len(t.Object.Fields))
 		for k, v := range t.Object.Fields {
-			fields[eventutil.EscapeKey(k)] = toEventValue(v)
+			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
 	case *Value_String_:
-- 
2.43.0


From f68931e4ea08b8f2532bbad42c0a6ac4408ac9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:15 +0000
Subject: [PATCH 08/30] fix: do not panic on protobuf values with an unset
 kind, array or object

Such messages are valid on the wire; an unset kind is read as null.
---
 pkg/serialization/protobuf/protobuf.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index fac93c9..37e448b 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -141,11 +141,12 @@ func ToLogEvent(l *Log) *event.Event {
 
 func toEventValue(v *Value) *event.Value {
 	switch t := v.GetKind().(type) {
-	case *Value_Null:
+	case nil, *Value_Null:
+		// Messages from the wire can leave the kind unset.
 		return event.NullValue
 	case *Value_Array:
-		items := make([]*event.Value, 0, len(t.Array.Items))
-		for _, x := range t.Array.Items {
+		items := make([]*event.Value, 0, len(t.Array.GetItems()))
+		for _, x := range t.Array.GetItems() {
 			items = append(items, toEventValue(x))
 		}
 		return event.Array(items...)
@@ -156,8 +157,8 @@ func toEventValue(v *Value) *event.Value {
 	case *Value_Integer:
 		return event.Integer(t.Integer)
 	case *Value_Object:
-		fields := make(map[string]*event.Value, len(t.Object.Fields))
-		for k, v := range t.Object.Fields {
+		fields := make(map[string]*event.Value, len(t.Object.GetFields()))
+		for k, v := range t.Object.GetFields() {
 			fields[k] = toEventValue(v)
 		}
 		return event.Object(fields)
-- 
2.43.0


From c950ad5a032065bdce3f82527a79a23cd2e06698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 09/30] fix: an empty event survives the protobuf round trip

It has no root object, and was decoded as a nil event.
---
 pkg/serialization/protobuf/protobuf.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/serialization/protobuf/protobuf.go b/pkg/serialization/protobuf/protobuf.go
index 37e448b..5a8471f 100644
--- a/pkg/serialization/protobuf/protobuf.go
+++ b/pkg/serialization/protobuf/protobuf.go
@@ -128,12 +128,12 @@ func fromEventValueObject(v *event.Value) *ValueObject {
 
 // ToLogEvent returns a log event from a protocol buffer message.
 func ToLogEvent(l *Log) *event.Event {
-	if l == nil || l.Object == nil {
+	if l == nil {
 		return nil
 	}
 
 	evt := event.New()
-	for k, v := range l.Object.Fields {
+	for k, v := range l.Object.GetFields() {
 		evt.Put(eventutil.EscapeKey(k), toEventValue(v))
 	}
 	return evt
-- 
2.43.0


From 12eb7cba60f5436bf2debff03f886a5da14881a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 10/30] fix: Drop drops the event

Drop had a value receiver, so the flag was set on a copy, and the flag was
only looked at when the processor also failed.
---
 pkg/pipeline/event.go     | 2 +-
 pkg/pipeline/pipeline.go  | 6 ++++++
 pkg/pipeline/processor.go | 6 +++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/event.go b/pkg/pipeline/event.go
index 0a7c740..09aadba 100644
--- a/pkg/pipeline/event.go
+++ b/pkg/pipeline/event.go
@@ -52,6 +52,6 @@ func (e *pipelineEvent) Cancel() {
 	e.cancelled = true
 }
 
-func (e pipelineEvent) Drop() {
+func (e *pipelineEvent) Drop() {
 	e.dropped = true
 }
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 32b138a..464fd7f 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -85,6 +85,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 			// Go to global on_failure handler.
 			break
 		}
+		if evt.dropped {
+			return nil
+		}
 	}
 
 	if err != nil && len(pipe.onFailure) > 0 {
@@ -93,6 +96,9 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 				// Failure in global on_failure.
 				return err
 			}
+			if evt.dropped {
+				return nil
+			}
 		}
 	}
 
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 31c601f..3a39498 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -49,7 +49,7 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 	// TODO: Check Condition before executing.
 	p.metricEventsInTotal.Inc()
 
-	if err := p.proc.Process(event); err != nil {
+	if err := p.proc.Process(event); err != nil || event.dropped {
 		if event.dropped {
 			p.metricDiscardedEventsTotal.Inc()
 			return nil
@@ -67,6 +67,10 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 				if err = proc.Process(event); err != nil {
 					break
 				}
+				if event.dropped {
+					p.metricDiscardedEventsTotal.Inc()
+					return nil
+				}
 			}
 		}
 
-- 
2.43.0


From 039a9813c56e07dd30fed9950e96208eec87b902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 11/30] fix: Cancel stops further processing of the event

The flag was set but never looked at.
---
 pkg/pipeline/pipeline.go  | 4 ++--
 pkg/pipeline/processor.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 464fd7f..6d0db1c 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -85,7 +85,7 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 			// Go to global on_failure handler.
 			break
 		}
-		if evt.dropped {
+		if evt.dropped || evt.cancelled {
 			return nil
 		}
 	}
@@ -96,7 +96,7 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 				// Failure in global on_failure.
 				return err
 			}
-			if evt.dropped {
+			if evt.dropped || evt.cancelled {
 				return nil
 			}
 		}
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 3a39498..b0ce83b 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -71,6 +71,9 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 					p.metricDiscardedEventsTotal.Inc()
 					return nil
 				}
+				if event.cancelled {
+					break
+				}
 			}
 		}
 
-- 
2.43.0


From e9882419d0b5fb4a8726f6e33c02ddc7b982dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 12/30] fix: count events recovered by on_failure as sent, not
 as errors

---
 pkg/pipeline/processor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index b0ce83b..03cf750 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -77,6 +77,12 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 			}
 		}
 
+		// Recovered by on_failure.
+		if err == nil {
+			p.metricEventsOutTotal.Inc()
+			return nil
+		}
+
 		// Ignore Failure
 		if p.IgnoreFailure && err != nil {
 			p.metricEventsOutTotal.Inc()
-- 
2.43.0


From 970380a345b77be1599f655ad9263cd0a8028c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 13/30] fix: export the metrics of the global on_failure
 processors

---
 pkg/pipeline/pipeline.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 6d0db1c..8935be5 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -130,6 +130,9 @@ func (pipe *Pipeline) visitProcessors(visit func(processor *pipelineProcessor))
 	for _, proc := range pipe.processors {
 		visitProcessor(visit, proc)
 	}
+	for _, proc := range pipe.onFailure {
+		visitProcessor(visit, proc)
+	}
 }
 
 func visitProcessor(visit func(processor *pipelineProcessor), proc *pipelineProcessor) {
-- 
2.43.0


From 2d0b7fb8ce56242046e14fd4298a4e6af597ab3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 14/30] fix: set stores a copy of its value

It stored a pointer to its own config (or to the source field), so a later
append to the target changed what every following event was given.
---
 pkg/event/value.go           | 22 ++++++++++++++++++++++
 pkg/processor/set/process.go |  4 +++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index 0d866b9..ca1dd15 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -73,6 +73,28 @@ type Value struct {
 	Type            ValueType
 }
 
+// Clone returns a deep copy of the value.
+func (v *Value) Clone() *Value {
+	if v == nil {
+		return nil
+	}
+
+	c := *v
+	if v.Array != nil {
+		c.Array = make([]*Value, len(v.Array))
+		for i, item := range v.Array {
+			c.Array[i] = item.Clone()
+		}
+	}
+	if v.Object != nil {
+		c.Object = make(map[string]*Value, len(v.Object))
+		for k, item := range v.Object {
+			c.Object[k] = item.Clone()
+		}
+	}
+	return &c
+}
+
 func (v *Value) value() interface{} {
 	switch v.Type {
 	case ArrayType:
diff --git a/pkg/processor/set/process.go b/pkg/processor/set/process.go
index 8275dc9..331ea9b 100644
--- a/pkg/processor/set/process.go
+++ b/pkg/processor/set/process.go
@@ -33,6 +33,8 @@ func (p *Set) Process(evt processor.Event) error {
 		}
 	}
 
-	_, err := evt.Put(p.config.TargetField, v)
+	// Store a copy. Other processors modify values in place, and must reach
+	// neither the config nor the source field through the target field.
+	_, err := evt.Put(p.config.TargetField, v.Clone())
 	return err
 }
-- 
2.43.0


From c69842d07668f0df9765158f3d0c9fe082b75279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:30 +0000
Subject: [PATCH 15/30] fix: append converts scalars, honors allow_duplicates
 and returns errors

The array made from a scalar was never stored, scalars other than strings
were rejected, allow_duplicates was ignored, and so was a failing Put.
---
 pkg/processor/append/process.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/processor/append/process.go b/pkg/processor/append/process.go
index 6186b54..7f996fc 100644
--- a/pkg/processor/append/process.go
+++ b/pkg/processor/append/process.go
@@ -28,13 +28,26 @@ func (p *Append) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
 	if v == nil {
 		v = event.Array()
-		evt.Put(p.config.Field, v)
-	} else if v.Type == event.StringType {
-		v = event.Array(v)
-	} else if v.Type != event.ArrayType {
+	} else if v.Type == event.NullType || v.Type == event.ObjectType {
 		return errors.New("value to append to is not array")
+	} else if v.Type != event.ArrayType {
+		v = event.Array(v)
 	}
 
-	v.Array = append(v.Array, event.String(p.config.Value))
-	return nil
+	items := v.Array[:len(v.Array):len(v.Array)]
+	if p.config.AllowDuplicates || !contains(items, p.config.Value) {
+		items = append(items, event.String(p.config.Value))
+	}
+
+	_, err := evt.Put(p.config.Field, event.Array(items...))
+	return err
+}
+
+func contains(items []*event.Value, s string) bool {
+	for _, v := range items {
+		if v != nil && v.Type == event.StringType && v.String == s {
+			return true
+		}
+	}
+	return false
 }
-- 
2.43.0


From e4fb1c4777bb65eb713150a01e960269a5fedaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 16/30] fix: remove removes its fields

Its Process function was an empty stub, so pipelines that drop sensitive
fields let them through.
---
 pkg/processor/remove/process.go | 29 +++++++++++++++++++++++++++++
 pkg/processor/remove/remove.go  |  5 -----
 2 files changed, 29 insertions(+), 5 deletions(-)
 create mode 100644 pkg/processor/remove/process.go

diff --git a/pkg/processor/remove/process.go b/pkg/processor/remove/process.go
new file mode 100644
index 0000000..f778bab
--- /dev/null
+++ b/pkg/processor/remove/process.go
@@ -0,0 +1,29 @@
+// Licensed to Elasticsearch B.V. under one or more contributor
+// license agreements. See the NOTICE file distributed with
+// this work for additional information regarding copyright
+// ownership. Elasticsearch B.V. licenses this file to you under
+// the Apache License, Version 2.0 (the "License"); you may
+// not use this file except in compliance with the License.
+// You may obtain a copy of the License at
+//
+//     http://www.apache.org/licenses/LICENSE-2.0
+//
+// Unless required by applicable law or agreed to in writing,
+// software distributed under the License is distributed on an
+// "AS IS" BASIS, WITHOUT WARRANTIES OR CONDITIONS OF ANY
+// KIND, either express or implied.  See the License for the
+// specific language governing permissions and limitations
+// under the License.
+
+package remove
+
+import "github.com/andrewkroh/go-sawmill/pkg/processor"
+
+func (p *Remove) Process(evt processor.Event) error {
+	for _, field := range p.config.Fields {
+		if evt.Delete(field) == nil && !p.config.IgnoreMissing {
+			return processor.ErrorKeyMissing{Key: field}
+		}
+	}
+	return nil
+}
diff --git a/pkg/processor/remove/remove.go b/pkg/processor/remove/remove.go
index 4d3965d..2b88a7a 100644
--- a/pkg/processor/remove/remove.go
+++ b/pkg/processor/remove/remove.go
@@ -65,8 +65,3 @@ func (p *Remove) Config() Config {
 func (p *Remove) String() string {
 	return processor.ConfigString(processorName, p.config)
 }
-
-func (p *Remove) Process(event processor.Event) error {
-	// TODO: Implement this in process.go.
-	return nil
-}
-- 
2.43.0


From 6adcc18fa690e1b54afc8b0e13b8bcf412432fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:49 +0000
Subject: [PATCH 17/30] fix: write nothing for a dropped event

The sawmill command printed a null line for it.
---
 cmd/sawmill/sawmill.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/sawmill/sawmill.go b/cmd/sawmill/sawmill.go
index 11a8742..b729178 100644
--- a/cmd/sawmill/sawmill.go
+++ b/cmd/sawmill/sawmill.go
@@ -143,6 +143,11 @@ func processInput(in io.Reader, out io.Writer, pipe *pipeline.Pipeline) error {
 			continue
 		}
 
+		// The event was dropped.
+		if evt == nil {
+			continue
+		}
+
 		if err := enc.Encode(evt); err != nil {
 			log.Printf("Unexpected error marshaling event from line %d to JSON: %v", lineNumber, err)
 			continue
-- 
2.43.0


From 4801b3ae91a8478a63a957e592733669b3b5ad30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 18/30] fix: lowercase and uppercase treat a null field as
 missing

ignore_missing is documented to cover fields that are null.
---
 pkg/processor/lowercase/process.go | 2 +-
 pkg/processor/uppercase/process.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/processor/lowercase/process.go b/pkg/processor/lowercase/process.go
index 2281c89..96bd8ee 100644
--- a/pkg/processor/lowercase/process.go
+++ b/pkg/processor/lowercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Lowercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
diff --git a/pkg/processor/uppercase/process.go b/pkg/processor/uppercase/process.go
index 49e87f4..948a70c 100644
--- a/pkg/processor/uppercase/process.go
+++ b/pkg/processor/uppercase/process.go
@@ -27,7 +27,7 @@ import (
 
 func (p *Uppercase) Process(evt processor.Event) error {
 	v := evt.Get(p.config.Field)
-	if v == nil {
+	if v == nil || v.Type == event.NullType {
 		return processor.ErrorKeyMissing{Key: p.config.Field}
 	}
 
-- 
2.43.0


From 79e33d0d9ff2d397f8c9ec825d4c4615cf020fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 19/30] fix: registering a nil constructor returns an error

---
 pkg/processor/registry/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index e641d2a..fe605f3 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -96,6 +96,9 @@ func (r *Registry) clear() {
 
 func validateConfig(i interface{}) (*processorConstructor, error) {
 	v := reflect.ValueOf(i)
+	if !v.IsValid() {
+		return nil, fmt.Errorf("value must be a function, but got nil")
+	}
 	t := v.Type()
 
 	if t.Kind() != reflect.Func {
-- 
2.43.0


From 1884d5799983df6fcc62119bd8705732fdb3f271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:25 +0000
Subject: [PATCH 20/30] fix: a pipeline without a configuration is refused
 instead of panicking

---
 pkg/pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 8935be5..8e53550 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -32,7 +32,7 @@ type Pipeline struct {
 }
 
 func New(config *Config) (*Pipeline, error) {
-	if config.ID == "" {
+	if config == nil || config.ID == "" {
 		return nil, errors.New("pipeline must have a non-empty id")
 	}
 
-- 
2.43.0


From ed109a4a3a2dcbef4e51ec3356bd8cc6b29ee4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:29 +0000
Subject: [PATCH 21/30] fix: run no failure handlers after a processor cancels
 the event and fails

---
 pkg/pipeline/pipeline.go  | 2 +-
 pkg/pipeline/processor.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 8e53550..43c6c02 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -90,7 +90,7 @@ func (pipe *Pipeline) process(evt *pipelineEvent) error {
 		}
 	}
 
-	if err != nil && len(pipe.onFailure) > 0 {
+	if err != nil && len(pipe.onFailure) > 0 && !evt.cancelled {
 		for _, proc := range pipe.onFailure {
 			if err = proc.Process(evt); err != nil {
 				// Failure in global on_failure.
diff --git a/pkg/pipeline/processor.go b/pkg/pipeline/processor.go
index 03cf750..ebfbbcf 100644
--- a/pkg/pipeline/processor.go
+++ b/pkg/pipeline/processor.go
@@ -62,7 +62,7 @@ func (p *pipelineProcessor) Process(event *pipelineEvent) error {
 		}
 
 		// On Failure
-		if len(p.OnFailure) > 0 {
+		if len(p.OnFailure) > 0 && !event.cancelled {
 			for _, proc := range p.OnFailure {
 				if err = proc.Process(event); err != nil {
 					break
-- 
2.43.0


From ac788c8482878c1ad3038c87bcc104e9469f067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:58 +0000
Subject: [PATCH 22/30] fix: encode empty arrays and objects as such in JSON

---
 pkg/event/value.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/event/value.go b/pkg/event/value.go
index ca1dd15..3608f75 100644
--- a/pkg/event/value.go
+++ b/pkg/event/value.go
@@ -98,6 +98,10 @@ func (v *Value) Clone() *Value {
 func (v *Value) value() interface{} {
 	switch v.Type {
 	case ArrayType:
+		if v.Array == nil {
+			// A nil slice would be encoded as JSON null.
+			return []*Value{}
+		}
 		return v.Array
 	case BoolType:
 		return v.Bool
@@ -106,6 +110,9 @@ func (v *Value) value() interface{} {
 	case IntegerType:
 		return v.Integer
 	case ObjectType:
+		if v.Object == nil {
+			return map[string]*Value{}
+		}
 		return v.Object
 	case StringType:
 		return v.String
-- 
2.43.0


From a9f8b38aeef1377604e3713e98c34889e58f2ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:58 +0000
Subject: [PATCH 23/30] fix: refuse a typed nil constructor

---
 pkg/processor/registry/registry.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/processor/registry/registry.go b/pkg/processor/registry/registry.go
index fe605f3..2a1bef0 100644
--- a/pkg/processor/registry/registry.go
+++ b/pkg/processor/registry/registry.go
@@ -104,6 +104,9 @@ func validateConfig(i interface{}) (*processorConstructor, error) {
 	if t.Kind() != reflect.Func {
 		return nil, fmt.Errorf("value must be a function, but got %v", t.Kind())
 	}
+	if v.IsNil() {
+		return nil, fmt.Errorf("value must be a function, but got nil")
+	}
 
 	// Check config.
 	if t.NumIn() != 1 {
-- 
2.43.0


From bbfdcc2c2b23804d87438c16267422db8e2dfc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:58 +0000
Subject: [PATCH 24/30] fix: accept every documented seed of community_id

---
 docs/README.md                             | 2 +-
 pkg/processor/community_id/community_id.go | 2 +-
 pkg/processor/processors.yml               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/docs/README.md b/docs/README.md
index 43d7884..07f45ff 100644
--- a/docs/README.md
+++ b/docs/README.md
@@ -83,7 +83,7 @@ configuration is required.
 | icmp_code |  | x | string | icmp.code | Field containing the ICMP code. |
 | icmp_type |  | x | string | icmp.type | Field containing the ICMP type. |
 | ignore_failure |  | x | bool |  | Ignore failures for the processor. |
-| seed |  | x | int16 |  | Seed for the community ID hash. Must be between 0 and 65535 (inclusive). The seed can prevent hash collisions between network domains, such as a staging and production network that use the same addressing scheme. |
+| seed |  | x | uint16 |  | Seed for the community ID hash. Must be between 0 and 65535 (inclusive). The seed can prevent hash collisions between network domains, such as a staging and production network that use the same addressing scheme. |
 | source_ip |  | x | string | source.ip | Field containing the source IP address. |
 | source_port |  | x | string | source.port | Field containing the source port. |
 | target_field |  | x | string | network.community_id | The field to assign the output value to, by default field is updated in-place. |
diff --git a/pkg/processor/community_id/community_id.go b/pkg/processor/community_id/community_id.go
index 1101b1b..a0d2d28 100644
--- a/pkg/processor/community_id/community_id.go
+++ b/pkg/processor/community_id/community_id.go
@@ -55,7 +55,7 @@ type Config struct {
 	// (inclusive). The seed can prevent hash collisions between network
 	// domains, such as a staging and production network that use the same
 	// addressing scheme.
-	Seed int16 `config:"seed"`
+	Seed uint16 `config:"seed"`
 
 	// Field containing the source IP address.
 	SourceIP string `config:"source_ip"`
diff --git a/pkg/processor/processors.yml b/pkg/processor/processors.yml
index 9667927..98d7037 100644
--- a/pkg/processor/processors.yml
+++ b/pkg/processor/processors.yml
@@ -118,7 +118,7 @@ processors:
             Field containing the transport protocol. Used only when the
             iana_number field is not present.
         - name: seed
-          type: int16
+          type: uint16
           optional: true
           default: 0
           description: |-
-- 
2.43.0


From 8d906c571a3ed3663ed58627ed184c4c1cdd2902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:41 +0000
Subject: [PATCH 25/30] fix: read a definition file with a null document as one
 without definitions

---
 internal/proctemplate/schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/proctemplate/schema.go b/internal/proctemplate/schema.go
index 8daff59..bca7614 100644
--- a/internal/proctemplate/schema.go
+++ b/internal/proctemplate/schema.go
@@ -91,10 +91,10 @@ func ReadProcessorsYAMLFile(path string) (*Processors, error) {
 	// Decode the processors.yml and validate all fields are known.
 	dec := yaml.NewDecoder(bufio.NewReader(f))
 	dec.KnownFields(true)
-	var p *Processors
+	var p Processors
 	if err := dec.Decode(&p); err != nil {
 		return nil, err
 	}
 
-	return p, nil
+	return &p, nil
 }
-- 
2.43.0


From 6e8ba7fb709929b981e635c92b9fe55f6f25a279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:41 +0000
Subject: [PATCH 26/30] fix: document every processor of a definition file

---
 docs/generate/generate.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/docs/generate/generate.go b/docs/generate/generate.go
index d2111a6..322ea6b 100644
--- a/docs/generate/generate.go
+++ b/docs/generate/generate.go
@@ -79,7 +79,6 @@ func main() {
 				Name:      name,
 				Processor: proc,
 			})
-			break
 		}
 	}
 	sort.Slice(templateData.Processors, func(i, j int) bool {
-- 
2.43.0


From 68a51e7208f34f3c29b0e903d14a5a926756a73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:35 +0000
Subject: [PATCH 27/30] fix: import the packages of pointer, slice and map
 option types

---
 internal/proctemplate/funcs.go | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/internal/proctemplate/funcs.go b/internal/proctemplate/funcs.go
index 2581b13..50adf5d 100644
--- a/internal/proctemplate/funcs.go
+++ b/internal/proctemplate/funcs.go
@@ -130,11 +130,13 @@ func configTypeImports(opts []ConfigurationOption) []string {
 	imports := map[string]struct{}{}
 
 	for _, conf := range opts {
-		idx := strings.LastIndex(conf.Type, ".")
-		if idx == -1 {
-			continue
+		for _, name := range strings.FieldsFunc(conf.Type, isTypeOperator) {
+			idx := strings.LastIndex(name, ".")
+			if idx == -1 {
+				continue
+			}
+			imports[name[:idx]] = struct{}{}
 		}
-		imports[conf.Type[:idx]] = struct{}{}
 	}
 
 	list := make([]string, 0, len(imports))
@@ -145,12 +147,26 @@ func configTypeImports(opts []ConfigurationOption) []string {
 	return list
 }
 
+// trimImportPrefix removes the import path prefix from each type name in
+// dataType (e.g. []example.com/a/b.T becomes []b.T).
 func trimImportPrefix(dataType string) string {
-	idx := strings.LastIndex(dataType, "/")
-	if idx == -1 {
-		return dataType
+	for _, name := range strings.FieldsFunc(dataType, isTypeOperator) {
+		if idx := strings.LastIndex(name, "/"); idx != -1 {
+			dataType = strings.Replace(dataType, name, name[idx+1:], 1)
+		}
+	}
+	return dataType
+}
+
+// isTypeOperator returns true for the characters that surround the type names
+// in pointer, slice, array, and map types.
+func isTypeOperator(c rune) bool {
+	switch c {
+	case '*', '[', ']':
+		return true
+	default:
+		return false
 	}
-	return dataType[idx+1:]
 }
 
 func boolToX(b bool) string {
-- 
2.43.0


From 48858ef344243c7d7712c4aa7e20f4ed816592b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:13 +0000
Subject: [PATCH 28/30] fix: convert nil error pointers held by error
 interfaces

---
 pkg/eventutil/reflect.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index df29bd0..e5d8018 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -101,10 +101,16 @@ func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	typ := rv.Type()
 
 	switch typ.Kind() {
-	case reflect.Ptr, reflect.Interface:
+	case reflect.Ptr:
+		if rv.IsNil() {
+			return event.NullValue, nil
+		}
+	case reflect.Interface:
 		if rv.IsNil() {
 			return event.NullValue, nil
 		}
+		// An error interface can hold a nil pointer.
+		return interfaceToValue(rv.Elem().Interface())
 	}
 
 	switch {
@@ -116,8 +122,6 @@ func reflectToValue(rv reflect.Value) (*event.Value, error) {
 	switch typ.Kind() {
 	case reflect.Ptr:
 		return reflectToValue(rv.Elem())
-	case reflect.Interface:
-		return interfaceToValue(rv.Elem().Interface())
 	case reflect.Bool:
 		return event.Bool(rv.Bool()), nil
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-- 
2.43.0


From c50f31aa8d06e8c22c15e038723b317b53f307d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:28 +0000
Subject: [PATCH 29/30] fix: keep struct fields with the string option that are
 nil or no Stringer

---
 pkg/eventutil/reflect.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/eventutil/reflect.go b/pkg/eventutil/reflect.go
index e5d8018..7157eba 100644
--- a/pkg/eventutil/reflect.go
+++ b/pkg/eventutil/reflect.go
@@ -208,12 +208,10 @@ func reflectStructToObject(rv reflect.Value) (*event.Value, error) {
 			return nil, err
 		}
 
-		if tagOpts.Has("string") {
-			s, ok := val.Interface().(fmt.Stringer)
-			if ok {
-				obj[name] = event.String(s.String())
+		if tagOpts.Has("string") && finalVal.Type != event.NullType {
+			if s, ok := val.Interface().(fmt.Stringer); ok {
+				finalVal = event.String(s.String())
 			}
-			continue
 		}
 
 		obj[name] = finalVal
-- 
2.43.0


From 59f7d85772f01d41204d362edb6b9b0cc29fcd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:33 +0000
Subject: [PATCH 30/30] fix: Get and Put below a nil member of an object do not
 panic

---
 pkg/event/event.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/event/event.go b/pkg/event/event.go
index 7fa708b..7564d8d 100644
--- a/pkg/event/event.go
+++ b/pkg/event/event.go
@@ -76,8 +76,8 @@ func (e *Event) put(path []string, val *Value, overwrite bool) (old *Value, err
 
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
-		inner, found := m[key]
-		if found {
+		inner := m[key]
+		if inner != nil {
 			if inner.Type != ObjectType {
 				return nil, fmt.Errorf("event put failed for path <%s>: %w", pathString(path), ErrTargetKeyNotObject)
 			}
@@ -112,8 +112,8 @@ func (e *Event) get(path []string) *Value {
 
 	m := e.fields
 	for _, key := range path[:len(path)-1] {
-		inner, found := m[key]
-		if !found || len(inner.Object) == 0 {
+		inner := m[key]
+		if inner == nil || len(inner.Object) == 0 {
 			return nil
 		}
 		m = inner.Object
-- 
2.43.0

