From b9a7f7a549044cb2e15686edd91016dc2bd578cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:34 +0000
Subject: [PATCH 01/27] fix: load Example objects of OpenAPI 3.1

The negated constraint of Example (value and externalValue are mutually
exclusive) rejected every document, so no example object could be loaded.
---
 openapi31/entities.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index e84efa5..47fdcb7 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1884,12 +1884,6 @@ var knownKeysExample = []string{
 func (e *Example) UnmarshalJSON(data []byte) error {
 	var err error
 
-	var not interface{}
-
-	if json.Unmarshal(data, &not) == nil {
-		return errors.New("not constraint failed for Example")
-	}
-
 	me := marshalExample(*e)
 
 	err = json.Unmarshal(data, &me)
@@ -1904,6 +1898,13 @@ func (e *Example) UnmarshalJSON(data []byte) error {
 		rawMap = nil
 	}
 
+	_, hasValue := rawMap["value"]
+	_, hasExternalValue := rawMap["externalValue"]
+
+	if hasValue && hasExternalValue {
+		return errors.New("not constraint failed for Example")
+	}
+
 	if me.Value == nil {
 		if _, ok := rawMap["value"]; ok {
 			var v interface{}
-- 
2.43.0


From b02608d5283dfa8386c735cf280452211ebe9ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:00 +0000
Subject: [PATCH 02/27] fix: load references of OpenAPI 3.1 unambiguously

An object with $ref is a Reference Object. References to path items,
callbacks, links, headers and responses with description used to be
rejected, because they were also valid as the referenced type.
---
 openapi31/entities.go | 49 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 49 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 47fdcb7..212df31 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1991,6 +1991,10 @@ func (e *ExampleOrReference) ExampleEns() *Example {
 func (e *ExampleOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &e.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -2062,6 +2066,10 @@ func (h *HeaderOrReference) HeaderEns() *Header {
 func (h *HeaderOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &h.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -2228,6 +2236,10 @@ func (p *ParameterOrReference) ParameterEns() *Parameter {
 func (p *ParameterOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &p.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -2758,6 +2770,10 @@ func (r *RequestBodyOrReference) RequestBodyEns() *RequestBody {
 func (r *RequestBodyOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &r.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -3283,6 +3299,10 @@ func (l *LinkOrReference) LinkEns() *Link {
 func (l *LinkOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &l.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -3354,6 +3374,10 @@ func (r *ResponseOrReference) ResponseEns() *Response {
 func (r *ResponseOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &r.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -3524,6 +3548,10 @@ func (p *PathItemOrReference) PathItemEns() *PathItem {
 func (p *PathItemOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &p.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -3595,6 +3623,10 @@ func (c *CallbacksOrReference) CallbacksEns() *Callbacks {
 func (c *CallbacksOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &c.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -5260,6 +5292,10 @@ func (s *SecuritySchemeOrReference) SecuritySchemeEns() *SecurityScheme {
 func (s *SecuritySchemeOrReference) UnmarshalJSON(data []byte) error {
 	var err error
 
+	if hasRef(data) {
+		return json.Unmarshal(data, &s.Reference)
+	}
+
 	oneOfErrors := make(map[string]error, 2)
 	oneOfValid := 0
 
@@ -5677,3 +5713,16 @@ var (
 	regex15092XX = regexp.MustCompile("^[1-5](?:[0-9]{2}|XX)$")
 	regex        = regexp.MustCompile("^/")
 )
+
+// hasRef checks if JSON object has "$ref" member, such an object is always a Reference.
+func hasRef(data []byte) bool {
+	var rawMap map[string]json.RawMessage
+
+	if err := json.Unmarshal(data, &rawMap); err != nil {
+		return false
+	}
+
+	_, found := rawMap["$ref"]
+
+	return found
+}
-- 
2.43.0


From 52662f1ffebf8fe68ff239df6a01cd7292559056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/27] fix: allow simple, matrix and label parameter styles in
 OpenAPI 3.1

Path and header parameters with a style could not be loaded or saved.
---
 openapi31/entities.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 212df31..cac361b 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -5567,6 +5567,9 @@ const (
 	ParameterStyleSpaceDelimited = ParameterStyle("spaceDelimited")
 	ParameterStylePipeDelimited  = ParameterStyle("pipeDelimited")
 	ParameterStyleDeepObject     = ParameterStyle("deepObject")
+	ParameterStyleSimple         = ParameterStyle("simple")
+	ParameterStyleMatrix         = ParameterStyle("matrix")
+	ParameterStyleLabel          = ParameterStyle("label")
 )
 
 // MarshalJSON encodes JSON.
@@ -5576,6 +5579,9 @@ func (i ParameterStyle) MarshalJSON() ([]byte, error) {
 	case ParameterStyleSpaceDelimited:
 	case ParameterStylePipeDelimited:
 	case ParameterStyleDeepObject:
+	case ParameterStyleSimple:
+	case ParameterStyleMatrix:
+	case ParameterStyleLabel:
 
 	default:
 		return nil, fmt.Errorf("unexpected ParameterStyle value: %v", i)
@@ -5600,6 +5606,9 @@ func (i *ParameterStyle) UnmarshalJSON(data []byte) error {
 	case ParameterStyleSpaceDelimited:
 	case ParameterStylePipeDelimited:
 	case ParameterStyleDeepObject:
+	case ParameterStyleSimple:
+	case ParameterStyleMatrix:
+	case ParameterStyleLabel:
 
 	default:
 		return fmt.Errorf("unexpected ParameterStyle value: %v", v)
-- 
2.43.0


From cef12227596d6d8c298110cfab85bcb6c7eabcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/27] fix: keep allowEmptyValue and allowReserved of OpenAPI
 3.1 parameters

These members of a Parameter Object were lost on load.
---
 openapi31/entities.go | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index cac361b..40c8061 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1188,18 +1188,20 @@ func (r *Reference) UnmarshalJSON(data []byte) error {
 
 // Parameter structure is generated from "#/$defs/parameter".
 type Parameter struct {
-	Name          string                        `json:"name"` // Required.
-	In            ParameterIn                   `json:"in"`   // Required.
-	Description   *string                       `json:"description,omitempty"`
-	Required      *bool                         `json:"required,omitempty"`
-	Deprecated    *bool                         `json:"deprecated,omitempty"`
-	Schema        map[string]interface{}        `json:"schema,omitempty"`
-	Content       map[string]MediaType          `json:"content,omitempty"`
-	Style         *ParameterStyle               `json:"style,omitempty"`
-	Explode       *bool                         `json:"explode,omitempty"`
-	Example       *interface{}                  `json:"example,omitempty"`
-	Examples      map[string]ExampleOrReference `json:"examples,omitempty"`
-	MapOfAnything map[string]interface{}        `json:"-"` // Key must match pattern: `^x-`.
+	Name            string                        `json:"name"` // Required.
+	In              ParameterIn                   `json:"in"`   // Required.
+	Description     *string                       `json:"description,omitempty"`
+	Required        *bool                         `json:"required,omitempty"`
+	Deprecated      *bool                         `json:"deprecated,omitempty"`
+	AllowEmptyValue *bool                         `json:"allowEmptyValue,omitempty"`
+	Schema          map[string]interface{}        `json:"schema,omitempty"`
+	Content         map[string]MediaType          `json:"content,omitempty"`
+	Style           *ParameterStyle               `json:"style,omitempty"`
+	Explode         *bool                         `json:"explode,omitempty"`
+	AllowReserved   *bool                         `json:"allowReserved,omitempty"`
+	Example         *interface{}                  `json:"example,omitempty"`
+	Examples        map[string]ExampleOrReference `json:"examples,omitempty"`
+	MapOfAnything   map[string]interface{}        `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithName sets Name value.
@@ -1278,6 +1280,18 @@ func (p *Parameter) WithExplode(val bool) *Parameter {
 	return p
 }
 
+// WithAllowEmptyValue sets AllowEmptyValue value.
+func (p *Parameter) WithAllowEmptyValue(val bool) *Parameter {
+	p.AllowEmptyValue = &val
+	return p
+}
+
+// WithAllowReserved sets AllowReserved value.
+func (p *Parameter) WithAllowReserved(val bool) *Parameter {
+	p.AllowReserved = &val
+	return p
+}
+
 // WithExample sets Example value.
 func (p *Parameter) WithExample(val interface{}) *Parameter {
 	p.Example = &val
@@ -1326,10 +1340,12 @@ var knownKeysParameter = []string{
 	"description",
 	"required",
 	"deprecated",
+	"allowEmptyValue",
 	"schema",
 	"content",
 	"style",
 	"explode",
+	"allowReserved",
 	"example",
 	"examples",
 }
-- 
2.43.0


From 884a550697f9e0624df1a6af04e3d6e9d87e83ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 05/27] fix: keep $ref of OpenAPI 3.1 path items

A path item that refers to another definition was silently emptied on load.
---
 openapi31/entities.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 40c8061..45388b3 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -874,6 +874,7 @@ func (s ServerVariable) MarshalJSON() ([]byte, error) {
 
 // PathItem structure is generated from "#/$defs/path-item".
 type PathItem struct {
+	Ref           *string                `json:"$ref,omitempty"` // Format: uri-reference.
 	Summary       *string                `json:"summary,omitempty"`
 	Description   *string                `json:"description,omitempty"`
 	Servers       []Server               `json:"servers,omitempty"`
@@ -889,6 +890,12 @@ type PathItem struct {
 	MapOfAnything map[string]interface{} `json:"-"` // Key must match pattern: `^x-`.
 }
 
+// WithRef sets Ref value.
+func (p *PathItem) WithRef(val string) *PathItem {
+	p.Ref = &val
+	return p
+}
+
 // WithSummary sets Summary value.
 func (p *PathItem) WithSummary(val string) *PathItem {
 	p.Summary = &val
@@ -1053,6 +1060,7 @@ func (p *PathItem) WithMapOfAnythingItem(key string, val interface{}) *PathItem
 type marshalPathItem PathItem
 
 var knownKeysPathItem = []string{
+	"$ref",
 	"summary",
 	"description",
 	"servers",
-- 
2.43.0


From 281ddb318bd05c7af758c2b7aa14db909ff574bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:41 +0000
Subject: [PATCH 06/27] fix: keep server of OpenAPI 3.1 links

The member is named server in the specification (it was called body in an
early version of its JSON schema), so it was lost on load.
---
 openapi31/entities.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index 45388b3..d00e165 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3133,6 +3133,7 @@ type Link struct {
 	Description   *string                `json:"description,omitempty"`
 	Body          *Server                `json:"body,omitempty"`
 	MapOfAnything map[string]interface{} `json:"-"` // Key must match pattern: `^x-`.
+	Server        *Server                `json:"server,omitempty"`
 }
 
 // WithOperationRef sets OperationRef value.
@@ -3176,6 +3177,21 @@ func (l *Link) WithDescription(val string) *Link {
 	return l
 }
 
+// WithServer sets Server value.
+func (l *Link) WithServer(val Server) *Link {
+	l.Server = &val
+	return l
+}
+
+// ServerEns ensures returned Server is not nil.
+func (l *Link) ServerEns() *Server {
+	if l.Server == nil {
+		l.Server = new(Server)
+	}
+
+	return l.Server
+}
+
 // WithBody sets Body value.
 func (l *Link) WithBody(val Server) *Link {
 	l.Body = &val
@@ -3217,6 +3233,7 @@ var knownKeysLink = []string{
 	"requestBody",
 	"description",
 	"body",
+	"server",
 }
 
 // UnmarshalJSON decodes JSON.
-- 
2.43.0


From 83933274f50c4d2d19c39109933e297770a53a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 07/27] fix: keep extensions of OpenAPI 3.1 components and
 encoding

Members with x- prefix were lost on load.
---
 openapi31/entities.go | 130 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 130 insertions(+)

diff --git a/openapi31/entities.go b/openapi31/entities.go
index d00e165..a2e527a 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -1596,6 +1596,7 @@ type Encoding struct {
 	Style         *EncodingStyle               `json:"style,omitempty"`
 	Explode       *bool                        `json:"explode,omitempty"`
 	AllowReserved *bool                        `json:"allowReserved,omitempty"`
+	MapOfAnything map[string]interface{}       `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithContentType sets ContentType value.
@@ -1639,6 +1640,70 @@ func (e *Encoding) WithAllowReserved(val bool) *Encoding {
 	return e
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (e *Encoding) WithMapOfAnything(val map[string]interface{}) *Encoding {
+	e.MapOfAnything = val
+	return e
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (e *Encoding) WithMapOfAnythingItem(key string, val interface{}) *Encoding {
+	if e.MapOfAnything == nil {
+		e.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	e.MapOfAnything[key] = val
+
+	return e
+}
+
+type marshalEncoding Encoding
+
+// UnmarshalJSON decodes JSON.
+func (e *Encoding) UnmarshalJSON(data []byte) error {
+	var err error
+
+	me := marshalEncoding(*e)
+
+	err = json.Unmarshal(data, &me)
+	if err != nil {
+		return err
+	}
+
+	var rawMap map[string]json.RawMessage
+
+	err = json.Unmarshal(data, &rawMap)
+	if err != nil {
+		rawMap = nil
+	}
+
+	for key, rawValue := range rawMap {
+		if regexX.MatchString(key) {
+			if me.MapOfAnything == nil {
+				me.MapOfAnything = make(map[string]interface{}, 1)
+			}
+
+			var val interface{}
+
+			err = json.Unmarshal(rawValue, &val)
+			if err != nil {
+				return err
+			}
+
+			me.MapOfAnything[key] = val
+		}
+	}
+
+	*e = Encoding(me)
+
+	return nil
+}
+
+// MarshalJSON encodes JSON.
+func (e Encoding) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalEncoding(e), e.MapOfAnything)
+}
+
 // Header structure is generated from "#/$defs/header".
 type Header struct {
 	Description   *string                       `json:"description,omitempty"`
@@ -3812,6 +3877,7 @@ type Components struct {
 	Links           map[string]LinkOrReference           `json:"links,omitempty"`
 	Callbacks       map[string]CallbacksOrReference      `json:"callbacks,omitempty"`
 	PathItems       map[string]PathItemOrReference       `json:"pathItems,omitempty"`
+	MapOfAnything   map[string]interface{}               `json:"-"` // Key must match pattern: `^x-`.
 }
 
 // WithSchemas sets Schemas value.
@@ -3984,6 +4050,70 @@ func (c *Components) WithPathItemsItem(key string, val PathItemOrReference) *Com
 	return c
 }
 
+// WithMapOfAnything sets MapOfAnything value.
+func (c *Components) WithMapOfAnything(val map[string]interface{}) *Components {
+	c.MapOfAnything = val
+	return c
+}
+
+// WithMapOfAnythingItem sets MapOfAnything item value.
+func (c *Components) WithMapOfAnythingItem(key string, val interface{}) *Components {
+	if c.MapOfAnything == nil {
+		c.MapOfAnything = make(map[string]interface{}, 1)
+	}
+
+	c.MapOfAnything[key] = val
+
+	return c
+}
+
+type marshalComponents Components
+
+// UnmarshalJSON decodes JSON.
+func (c *Components) UnmarshalJSON(data []byte) error {
+	var err error
+
+	mc := marshalComponents(*c)
+
+	err = json.Unmarshal(data, &mc)
+	if err != nil {
+		return err
+	}
+
+	var rawMap map[string]json.RawMessage
+
+	err = json.Unmarshal(data, &rawMap)
+	if err != nil {
+		rawMap = nil
+	}
+
+	for key, rawValue := range rawMap {
+		if regexX.MatchString(key) {
+			if mc.MapOfAnything == nil {
+				mc.MapOfAnything = make(map[string]interface{}, 1)
+			}
+
+			var val interface{}
+
+			err = json.Unmarshal(rawValue, &val)
+			if err != nil {
+				return err
+			}
+
+			mc.MapOfAnything[key] = val
+		}
+	}
+
+	*c = Components(mc)
+
+	return nil
+}
+
+// MarshalJSON encodes JSON.
+func (c Components) MarshalJSON() ([]byte, error) {
+	return marshalUnion(marshalComponents(c), c.MapOfAnything)
+}
+
 // SecurityScheme structure is generated from "#/$defs/security-scheme".
 type SecurityScheme struct {
 	Description   *string                   `json:"description,omitempty"`
-- 
2.43.0


From 8a1aab55c73cd5db90578a56732dfab28b81ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 08/27] fix: keep empty security of an operation

Empty security array removes top-level security requirements from an
operation, when it was dropped on save a public operation became secured.
---
 openapi3/entities.go  | 5 +++++
 openapi31/entities.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 356433a..6c81b78 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -4121,6 +4121,11 @@ func (o *Operation) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (o Operation) MarshalJSON() ([]byte, error) {
+	// Empty security removes top-level security declaration, so it must not be omitted.
+	if o.Security != nil && len(o.Security) == 0 {
+		return marshalUnion(marshalOperation(o), map[string]interface{}{"security": o.Security}, o.MapOfAnything)
+	}
+
 	return marshalUnion(marshalOperation(o), o.MapOfAnything)
 }
 
diff --git a/openapi31/entities.go b/openapi31/entities.go
index a2e527a..23b2bf2 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -2575,6 +2575,11 @@ func (o *Operation) UnmarshalJSON(data []byte) error {
 
 // MarshalJSON encodes JSON.
 func (o Operation) MarshalJSON() ([]byte, error) {
+	// Empty security removes top-level security declaration, so it must not be omitted.
+	if o.Security != nil && len(o.Security) == 0 {
+		return marshalUnion(marshalOperation(o), map[string]interface{}{"security": o.Security}, o.MapOfAnything)
+	}
+
 	return marshalUnion(marshalOperation(o), o.MapOfAnything)
 }
 
-- 
2.43.0


From 0c31a516acca6c5f74eb34759cdc7d80022f99a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 09/27] fix: do not repeat members of loaded OpenAPI 3.0
 entities

Parameters, headers and bearer security schemes had schema, content, in,
required, style or scheme members repeated when saved after load, stale
values of the duplicates were overriding changes made after load.
---
 openapi3/entities.go | 57 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 6c81b78..3f37987 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -8562,6 +8562,15 @@ func marshalUnion(maps ...interface{}) ([]byte, error) {
 		}
 
 		if len(result) > 1 {
+			j, err = omitKeys(j, result)
+			if err != nil {
+				return nil, err
+			}
+
+			if string(j) == "{}" {
+				continue
+			}
+
 			result[len(result)-1] = ','
 		}
 
@@ -8584,3 +8593,51 @@ var (
 	regex                                      = regexp.MustCompile(`^\/`)
 	regexAZAZ09                                = regexp.MustCompile(`^[a-zA-Z0-9\.\-_]+$`)
 )
+
+// omitKeys removes members of JSON object that are already present in the other object,
+// so that their union does not have duplicates.
+func omitKeys(object, other []byte) ([]byte, error) {
+	keys, err := objectKeys(object)
+	if err != nil {
+		return nil, err
+	}
+
+	otherKeys, err := objectKeys(other)
+	if err != nil {
+		return nil, err
+	}
+
+	present := make(map[string]bool, len(otherKeys))
+	for _, key := range otherKeys {
+		present[key] = true
+	}
+
+	var members map[string]json.RawMessage
+
+	if err := json.Unmarshal(object, &members); err != nil {
+		return nil, err
+	}
+
+	res := []byte("{")
+
+	for _, key := range keys {
+		if present[key] {
+			continue
+		}
+
+		k, err := json.Marshal(key)
+		if err != nil {
+			return nil, err
+		}
+
+		if len(res) > 1 {
+			res = append(res, ',')
+		}
+
+		res = append(res, k...)
+		res = append(res, ':')
+		res = append(res, members[key]...)
+	}
+
+	return append(res, '}'), nil
+}
-- 
2.43.0


From c0bc870f0fe6a0e6fbbc8c004d6265a1b40aeb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:13 +0000
Subject: [PATCH 10/27] fix: keep the value of exclusive limits in OpenAPI 3.0
 schema

Numeric exclusiveMaximum and exclusiveMinimum were converted to flags
without maximum and minimum.
---
 openapi3/jsonschema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index 1cf4b82..cff6d12 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -262,14 +262,14 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 
 	if js.ExclusiveMaximum != nil {
 		os.WithExclusiveMaximum(true)
-		os.Maximum = js.Maximum
+		os.Maximum = js.ExclusiveMaximum
 	} else if js.Maximum != nil {
 		os.Maximum = js.Maximum
 	}
 
 	if js.ExclusiveMinimum != nil {
 		os.WithExclusiveMinimum(true)
-		os.Minimum = js.Minimum
+		os.Minimum = js.ExclusiveMinimum
 	} else if js.Minimum != nil {
 		os.Minimum = js.Minimum
 	}
-- 
2.43.0


From a5a31640c47853b01c3b5956414125fc840982a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 11/27] fix: detect existing operation for a path with regexp
 placeholders

AddOperation checked for existing operation before the path was cleaned
from mux-style regular expressions, so an operation could be overwritten.
---
 openapi3/helper.go  | 6 +++++-
 openapi31/helper.go | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index b215205..092c31c 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -98,7 +98,11 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, path, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
+
 	pathItem := s.Paths.MapOfPathItemValues[path]
 
 	if _, found := pathItem.MapOfOperationValues[method]; found {
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 533a613..cedc608 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -153,7 +153,10 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 //
 // It will fail if operation with method and path already exists.
 func (s *Spec) AddOperation(method, path string, operation Operation) error {
-	method = strings.ToLower(method)
+	method, path, _, err := openapi.SanitizeMethodPath(method, path)
+	if err != nil {
+		return err
+	}
 
 	pathItem := s.PathsEns().MapOfPathItemValues[path]
 
-- 
2.43.0


From e086642b126a743db3dcbb21338e367518db30b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:32 +0000
Subject: [PATCH 12/27] fix: clean path placeholders with repetition in regexp

Braces in a mux-style regular expression, as in {id:[0-9]{3}}, were cutting
the placeholder short and leaving a stray brace in the path.
---
 operation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operation.go b/operation.go
index 74b6d4c..4d5b6d7 100644
--- a/operation.go
+++ b/operation.go
@@ -176,7 +176,7 @@ func OperationCtx(rc *jsonschema.ReflectContext) (OperationContext, bool) {
 	return nil, false
 }
 
-var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:[^}]+)?(?:})`)
+var regexFindPathParameter = regexp.MustCompile(`{([^}:]+)(:(?:[^{}]|{[^{}]*})+|:[^}]+)?(?:})`)
 
 // SanitizeMethodPath validates method and parses path element names.
 func SanitizeMethodPath(method, pathPattern string) (cleanMethod string, cleanPath string, pathParams []string, err error) {
-- 
2.43.0


From 0644b2b6a0c6a5142e1b56d21469a4914ca142f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:33 +0000
Subject: [PATCH 13/27] fix: keep headers of a response with multiple content
 units

Headers of previous content units with the same status were dropped.
---
 openapi3/reflect.go  | 8 +++++++-
 openapi31/reflect.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/openapi3/reflect.go b/openapi3/reflect.go
index 8f9d147..25b8f32 100644
--- a/openapi3/reflect.go
+++ b/openapi3/reflect.go
@@ -638,7 +638,13 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	if resp.Headers == nil {
+		resp.Headers = res
+	} else {
+		for name, header := range res {
+			resp.Headers[name] = header
+		}
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
diff --git a/openapi31/reflect.go b/openapi31/reflect.go
index 4be25f9..cefdbd4 100644
--- a/openapi31/reflect.go
+++ b/openapi31/reflect.go
@@ -608,7 +608,13 @@ func (r *Reflector) parseResponseHeader(resp *Response, oc openapi.OperationCont
 		return err
 	}
 
-	resp.Headers = res
+	if resp.Headers == nil {
+		resp.Headers = res
+	} else {
+		for name, header := range res {
+			resp.Headers[name] = header
+		}
+	}
 
 	if schema.Description != nil && resp.Description == "" {
 		resp.Description = *schema.Description
-- 
2.43.0


From 36858a74aab84ae51549c508ec08c1f4d055cd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:34 +0000
Subject: [PATCH 14/27] fix: walk schemas of default and referenced responses

WalkResponseJSONSchemas panicked for a default response and for a response
that is replaced with a reference.
---
 openapi3/walk_schema.go  | 9 +++++++++
 openapi31/walk_schema.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 877a252..4e75e58 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// Response might be replaced with a reference by ContentUnit.Customize.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 55aa781..b05faf6 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -38,6 +38,15 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 		resp = r.Response
 	}
 
+	if op.Responses.Default != nil {
+		resp = op.Responses.Default.Response
+	}
+
+	// Response might be replaced with a reference by ContentUnit.Customize.
+	if resp == nil {
+		return nil
+	}
+
 	if err := r.provideHeaderSchemas(resp, cb); err != nil {
 		return err
 	}
-- 
2.43.0


From 878c020b91c56bbaa5b5900af960041cc4f90514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 15/27] fix: walk form data of recursive structures

WalkRequestJSONSchemas skipped all form fields if the structure refers to
itself.
---
 openapi3/walk_schema.go  | 12 ++++++++++--
 openapi31/walk_schema.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 4e75e58..3034e1d 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -138,7 +138,7 @@ func (r *Reflector) WalkRequestJSONSchemas(
 		}
 
 		if ct == mimeFormUrlencoded {
-			if err = provideFormDataSchemas(schema, cb); err != nil {
+			if err = r.provideFormDataSchemas(schema, cb); err != nil {
 				return err
 			}
 		}
@@ -147,7 +147,15 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	return nil
 }
 
-func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
+func (r *Reflector) provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
+	// Recursive schema is not inlined.
+	if schema.TypeObject.Ref != nil {
+		if s, found := r.ResolveJSONSchemaRef(*schema.TypeObject.Ref); found && s.TypeObject != nil {
+			s.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
+			schema = s
+		}
+	}
+
 	for name, propertySchema := range schema.TypeObject.Properties {
 		propertySchema := propertySchema
 
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index b05faf6..c95a9ff 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -138,7 +138,7 @@ func (r *Reflector) WalkRequestJSONSchemas(
 		}
 
 		if ct == mimeFormUrlencoded {
-			if err = provideFormDataSchemas(schema, cb); err != nil {
+			if err = r.provideFormDataSchemas(schema, cb); err != nil {
 				return err
 			}
 		}
@@ -147,7 +147,15 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	return nil
 }
 
-func provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
+func (r *Reflector) provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb openapi.JSONSchemaCallback) error {
+	// Recursive schema is not inlined.
+	if schema.TypeObject.Ref != nil {
+		if s, found := r.ResolveJSONSchemaRef(*schema.TypeObject.Ref); found && s.TypeObject != nil {
+			s.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
+			schema = s
+		}
+	}
+
 	for name, propertySchema := range schema.TypeObject.Properties {
 		propertySchema := propertySchema
 
-- 
2.43.0


From d5b45137b6da226c2c11210ea4e8f23a6095a782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 16/27] fix: convert schemas with dangling references to JSON
 schema

ToJSONSchema panicked if a reference is not defined in spec components.
---
 openapi3/jsonschema.go  | 6 +++++-
 openapi31/jsonschema.go | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index cff6d12..fb1a99f 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -55,7 +55,11 @@ func (s *SchemaOrRef) toJSONSchema(ctx toJSONSchemaContext) jsonschema.SchemaOrB
 			if _, alreadyProcessed := ctx.refsProcessed[dstName]; !alreadyProcessed {
 				ctx.refsProcessed[dstName] = jsonschema.SchemaOrBool{}
 
-				dst := ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[dstName]
+				dst := SchemaOrRef{}
+				if ctx.spec != nil && ctx.spec.Components != nil && ctx.spec.Components.Schemas != nil {
+					dst = ctx.spec.Components.Schemas.MapOfSchemaOrRefValues[dstName]
+				}
+
 				ctx.refsProcessed[dstName] = dst.toJSONSchema(ctx)
 			}
 
diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 62429f7..6f6f2d1 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -71,10 +71,15 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 			if _, alreadyProcessed := ctx.refsProcessed[dstName]; !alreadyProcessed {
 				ctx.refsProcessed[dstName] = jsonschema.SchemaOrBool{}
 
-				dst := ctx.spec.Components.Schemas[dstName]
+				var dst map[string]interface{}
+				if ctx.spec != nil && ctx.spec.Components != nil {
+					dst = ctx.spec.Components.Schemas[dstName]
+				}
 
 				js := jsonschema.SchemaOrBool{}
-				if err := js.FromSimpleMap(dst); err != nil {
+				if dst == nil {
+					js.TypeObjectEns()
+				} else if err := js.FromSimpleMap(dst); err != nil {
 					panic("BUG: " + err.Error())
 				}
 
-- 
2.43.0


From 4eff5477201b4b7b3e00f95d83a6bc01dfca8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:02 +0000
Subject: [PATCH 17/27] fix: keep existing OpenAPI 3.1 operation when its setup
 fails

---
 openapi31/helper.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/openapi31/helper.go b/openapi31/helper.go
index cedc608..8e15380 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -78,13 +78,15 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 
 	pathItem := s.PathsEns().MapOfPathItemValues[path]
 
-	operation, err := pathItem.Operation(method)
+	existing, err := pathItem.Operation(method)
 	if err != nil {
 		return err
 	}
 
-	if operation == nil {
-		operation = &Operation{}
+	// Existing operation is only updated after successful setup and validation.
+	operation := &Operation{}
+	if existing != nil {
+		*operation = *existing
 	}
 
 	for _, f := range setup {
@@ -102,6 +104,12 @@ func (s *Spec) SetupOperation(method, path string, setup ...func(*Operation) err
 		return err
 	}
 
+	if existing != nil {
+		*existing = *operation
+
+		return nil
+	}
+
 	if err := pathItem.SetOperation(method, operation); err != nil {
 		return err
 	}
-- 
2.43.0


From d328b47782039389b6dc8c19d4d6a6c6ee0c0063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:15 +0000
Subject: [PATCH 18/27] fix: keep request body of pointer to struct with
 embedded jsonschema.Struct

---
 internal/json_schema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index f19d55f..43d5472 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -69,7 +69,8 @@ func ReflectRequestBody(
 	hasJSONSchemaStruct := false
 
 	refl.WalkFieldsRecursively(reflect.ValueOf(input), func(v reflect.Value, _ reflect.StructField, _ []reflect.StructField) {
-		if v.Type() == reflect.TypeOf(jsonschema.Struct{}) {
+		// Fields of an addressable value are walked by pointer.
+		if t := v.Type(); t == reflect.TypeOf(jsonschema.Struct{}) || t == reflect.TypeOf(&jsonschema.Struct{}) {
 			hasJSONSchemaStruct = true
 		}
 	})
-- 
2.43.0


From 55a39f32402101c2aea7fc35a6e6b2df2822861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:12 +0000
Subject: [PATCH 19/27] fix: reject containers of wrong JSON type instead of
 dropping them

---
 openapi3/entities.go  | 22 +++++++++++-----------
 openapi31/entities.go |  4 ++--
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/openapi3/entities.go b/openapi3/entities.go
index 3f37987..1cb4308 100644
--- a/openapi3/entities.go
+++ b/openapi3/entities.go
@@ -5476,7 +5476,7 @@ func (c *Callback) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -5646,7 +5646,7 @@ func (p *Paths) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -5986,7 +5986,7 @@ func (c *ComponentsSchemas) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6052,7 +6052,7 @@ func (c *ComponentsResponses) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6118,7 +6118,7 @@ func (c *ComponentsParameters) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6184,7 +6184,7 @@ func (c *ComponentsExamples) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6250,7 +6250,7 @@ func (c *ComponentsRequestBodies) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -6316,7 +6316,7 @@ func (c *ComponentsHeaders) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8048,7 +8048,7 @@ func (c *ComponentsSecuritySchemes) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8114,7 +8114,7 @@ func (c *ComponentsLinks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -8180,7 +8180,7 @@ func (c *ComponentsCallbacks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
diff --git a/openapi31/entities.go b/openapi31/entities.go
index 23b2bf2..1aa6648 100644
--- a/openapi31/entities.go
+++ b/openapi31/entities.go
@@ -3568,7 +3568,7 @@ func (c *Callbacks) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
@@ -3817,7 +3817,7 @@ func (p *Paths) UnmarshalJSON(data []byte) error {
 
 	err = json.Unmarshal(data, &rawMap)
 	if err != nil {
-		rawMap = nil
+		return err
 	}
 
 	for key, rawValue := range rawMap {
-- 
2.43.0


From 15a209c6d2293de234b8d9dbd955272676936ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 20/27] fix: keep the tighter limit of JSON schema in OpenAPI
 3.0 schema

---
 openapi3/jsonschema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index fb1a99f..bb74ad4 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -264,14 +264,15 @@ func (s *SchemaOrRef) FromJSONSchema(schema jsonschema.SchemaOrBool) {
 		os.Items.FromJSONSchema(*js.Items.SchemaOrBool)
 	}
 
-	if js.ExclusiveMaximum != nil {
+	// OpenAPI 3.0 schema has one limit, the tighter one is kept.
+	if js.ExclusiveMaximum != nil && (js.Maximum == nil || *js.ExclusiveMaximum <= *js.Maximum) {
 		os.WithExclusiveMaximum(true)
 		os.Maximum = js.ExclusiveMaximum
 	} else if js.Maximum != nil {
 		os.Maximum = js.Maximum
 	}
 
-	if js.ExclusiveMinimum != nil {
+	if js.ExclusiveMinimum != nil && (js.Minimum == nil || *js.ExclusiveMinimum >= *js.Minimum) {
 		os.WithExclusiveMinimum(true)
 		os.Minimum = js.ExclusiveMinimum
 	} else if js.Minimum != nil {
-- 
2.43.0


From 80e491411464e8bb781cf0110ea1e977a4e812aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:27 +0000
Subject: [PATCH 21/27] fix: carry all referenced components in JSON schema of
 OpenAPI 3.1

---
 openapi31/jsonschema.go | 55 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 6f6f2d1..0a79a68 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -93,8 +93,13 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		return
 	}
 
-	if jso.Not != nil {
-		findReferences(*jso.Not, ctx)
+	for _, sub := range []*jsonschema.SchemaOrBool{
+		jso.Not, jso.If, jso.Then, jso.Else, jso.Contains, jso.PropertyNames,
+		jso.AdditionalItems, jso.AdditionalProperties,
+	} {
+		if sub != nil {
+			findReferences(*sub, ctx)
+		}
 	}
 
 	for _, allOf := range jso.AllOf {
@@ -123,7 +128,49 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 		findReferences(propSchema, ctx)
 	}
 
-	if jso.AdditionalProperties != nil {
-		findReferences(*jso.AdditionalProperties, ctx)
+	for _, propSchema := range jso.PatternProperties {
+		findReferences(propSchema, ctx)
+	}
+
+	for _, definition := range jso.Definitions {
+		findReferences(definition, ctx)
+	}
+
+	for _, dependency := range jso.Dependencies {
+		if dependency.SchemaOrBool != nil {
+			findReferences(*dependency.SchemaOrBool, ctx)
+		}
+	}
+
+	findExtraReferences(jso.ExtraProperties, ctx)
+}
+
+// findExtraReferences finds references in keywords of JSON Schema 2020-12 that jsonschema.Schema does not know.
+func findExtraReferences(extra map[string]interface{}, ctx toJSONSchemaContext) {
+	var find func(v interface{})
+
+	find = func(v interface{}) {
+		switch v := v.(type) {
+		case []interface{}:
+			for _, item := range v {
+				find(item)
+			}
+		case map[string]interface{}:
+			js := jsonschema.SchemaOrBool{}
+			if err := js.FromSimpleMap(v); err == nil {
+				findReferences(js, ctx)
+			}
+		}
+	}
+
+	for _, keyword := range []string{"prefixItems", "unevaluatedItems", "unevaluatedProperties", "contentSchema"} {
+		find(extra[keyword])
+	}
+
+	for _, keyword := range []string{"$defs", "dependentSchemas"} {
+		schemas, _ := extra[keyword].(map[string]interface{})
+		for _, schema := range schemas {
+			find(schema)
+		}
 	}
 }
-- 
2.43.0


From 3cf848746ce425e0143d4dc7d324be5412b35d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:07 +0000
Subject: [PATCH 22/27] fix: do not restrict nullable OpenAPI 3.0 schema
 without type to null

---
 openapi3/jsonschema.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openapi3/jsonschema.go b/openapi3/jsonschema.go
index bb74ad4..5e9ba8f 100644
--- a/openapi3/jsonschema.go
+++ b/openapi3/jsonschema.go
@@ -83,7 +83,8 @@ func (s *SchemaOrRef) toJSONSchema(ctx toJSONSchemaContext) jsonschema.SchemaOrB
 		jso.AddType(jsonschema.SimpleType(*ss.Type))
 	}
 
-	if ss.Nullable != nil && *ss.Nullable {
+	// Nullable extends the type and has no effect without it.
+	if ss.Type != nil && ss.Nullable != nil && *ss.Nullable {
 		jso.AddType(jsonschema.Null)
 	}
 
-- 
2.43.0


From 24a695a0ecec944e8296311430e2d9a1c15a500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:59 +0000
Subject: [PATCH 23/27] fix: report undefined path parameters in a
 deterministic order

---
 openapi3/helper.go  | 9 ++++++++-
 openapi31/helper.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/openapi3/helper.go b/openapi3/helper.go
index 092c31c..0499ec5 100644
--- a/openapi3/helper.go
+++ b/openapi3/helper.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -49,12 +50,18 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 		paramIndex[p.Parameter.Name+string(p.Parameter.In)] = true
 	}
 
+	undefined := make([]string, 0, len(pathParams))
+
 	for pathParam := range pathParams {
 		if !paramIndex[pathParam+string(ParameterInPath)] {
-			errs = append(errs, "undefined path parameter: "+pathParam)
+			undefined = append(undefined, "undefined path parameter: "+pathParam)
 		}
 	}
 
+	sort.Strings(undefined)
+
+	errs = append(errs, undefined...)
+
 	if len(errs) > 0 {
 		return errors.New(strings.Join(errs, ", "))
 	}
diff --git a/openapi31/helper.go b/openapi31/helper.go
index 8e15380..804e04c 100644
--- a/openapi31/helper.go
+++ b/openapi31/helper.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"net/http"
+	"sort"
 	"strconv"
 	"strings"
 
@@ -144,12 +145,18 @@ func (o *Operation) validatePathParams(pathParams map[string]bool) error {
 		paramIndex[p.Parameter.Name+string(p.Parameter.In)] = true
 	}
 
+	undefined := make([]string, 0, len(pathParams))
+
 	for pathParam := range pathParams {
 		if !paramIndex[pathParam+string(ParameterInPath)] {
-			errs = append(errs, "undefined path parameter: "+pathParam)
+			undefined = append(undefined, "undefined path parameter: "+pathParam)
 		}
 	}
 
+	sort.Strings(undefined)
+
+	errs = append(errs, undefined...)
+
 	if len(errs) > 0 {
 		return errors.New(strings.Join(errs, ", "))
 	}
-- 
2.43.0


From b2dc82cb3e43638db98ea37d42a861e361fd8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:08 +0000
Subject: [PATCH 24/27] fix: report an error of a hook in detection of response
 body

---
 internal/json_schema.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/json_schema.go b/internal/json_schema.go
index 43d5472..427a055 100644
--- a/internal/json_schema.go
+++ b/internal/json_schema.go
@@ -202,8 +202,9 @@ func ReflectJSONResponse(
 	}
 
 	// Check if output structure exposes meaningful schema.
-	if hasJSONBody, err := hasJSONBody(r, output); err == nil && !hasJSONBody {
-		return nil, nil
+	hasJSONBody, err := hasJSONBody(r, output)
+	if err != nil || !hasJSONBody {
+		return nil, err
 	}
 
 	reflOptions = append(reflOptions,
-- 
2.43.0


From 0c2e804b938a5c40cde873173f445c46863bb5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:36 +0000
Subject: [PATCH 25/27] fix: walking schemas of customized content does not
 panic

A header that is a reference and, with OpenAPI 3.0, a request media type
without schema were dereferenced as nil.
---
 openapi3/walk_schema.go  | 8 +++++++-
 openapi31/walk_schema.go | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 3034e1d..44cd98c 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -68,7 +68,8 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 func (r *Reflector) provideHeaderSchemas(resp *Response, cb openapi.JSONSchemaCallback) error {
 	for name, h := range resp.Headers {
-		if h.Header.Schema == nil {
+		// Header might be a reference set by ContentUnit.Customize.
+		if h.Header == nil || h.Header.Schema == nil {
 			continue
 		}
 
@@ -128,6 +129,11 @@ func (r *Reflector) WalkRequestJSONSchemas(
 	}
 
 	for ct, content := range op.RequestBody.RequestBody.Content {
+		// Media type might have been set without schema by ContentUnit.Customize.
+		if content.Schema == nil {
+			content.Schema = &SchemaOrRef{}
+		}
+
 		schema := content.Schema.ToJSONSchema(r.Spec)
 
 		if ct == mimeJSON {
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index c95a9ff..7c1e9fb 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -68,7 +68,8 @@ func (r *Reflector) WalkResponseJSONSchemas(cu openapi.ContentUnit, cb openapi.J
 
 func (r *Reflector) provideHeaderSchemas(resp *Response, cb openapi.JSONSchemaCallback) error {
 	for name, h := range resp.Headers {
-		if h.Header.Schema == nil {
+		// Header might be a reference set by ContentUnit.Customize.
+		if h.Header == nil || h.Header.Schema == nil {
 			continue
 		}
 
-- 
2.43.0


From 061c4b86c120883d3dba240978d9e60424a322da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:57:52 +0000
Subject: [PATCH 26/27] fix: keep extra keywords of form field schemas when
 walking request

---
 openapi3/walk_schema.go  | 10 ++++++++--
 openapi31/walk_schema.go | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/openapi3/walk_schema.go b/openapi3/walk_schema.go
index 44cd98c..ea1c9bc 100644
--- a/openapi3/walk_schema.go
+++ b/openapi3/walk_schema.go
@@ -165,10 +165,16 @@ func (r *Reflector) provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb op
 	for name, propertySchema := range schema.TypeObject.Properties {
 		propertySchema := propertySchema
 
-		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
+		if components, found := schema.TypeObject.ExtraProperties["components"]; found && propertySchema.TypeObject != nil {
 			cp := *propertySchema.TypeObject
+			cp.ExtraProperties = make(map[string]interface{}, len(cp.ExtraProperties)+1)
+
+			for k, v := range propertySchema.TypeObject.ExtraProperties {
+				cp.ExtraProperties[k] = v
+			}
+
+			cp.ExtraProperties["components"] = components
 			propertySchema.TypeObject = &cp
-			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
 		}
 
 		isRequired := false
diff --git a/openapi31/walk_schema.go b/openapi31/walk_schema.go
index 7c1e9fb..4aaaa5d 100644
--- a/openapi31/walk_schema.go
+++ b/openapi31/walk_schema.go
@@ -160,10 +160,16 @@ func (r *Reflector) provideFormDataSchemas(schema jsonschema.SchemaOrBool, cb op
 	for name, propertySchema := range schema.TypeObject.Properties {
 		propertySchema := propertySchema
 
-		if propertySchema.TypeObject != nil && len(schema.TypeObject.ExtraProperties) > 0 {
+		if components, found := schema.TypeObject.ExtraProperties["components"]; found && propertySchema.TypeObject != nil {
 			cp := *propertySchema.TypeObject
+			cp.ExtraProperties = make(map[string]interface{}, len(cp.ExtraProperties)+1)
+
+			for k, v := range propertySchema.TypeObject.ExtraProperties {
+				cp.ExtraProperties[k] = v
+			}
+
+			cp.ExtraProperties["components"] = components
 			propertySchema.TypeObject = &cp
-			propertySchema.TypeObject.ExtraProperties = schema.TypeObject.ExtraProperties
 		}
 
 		isRequired := false
-- 
2.43.0


From 840b19c1d210b426577b75384720017fa199c90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:39 +0000
Subject: [PATCH 27/27] fix: keep siblings of references when converting
 OpenAPI 3.1 schemas to JSON Schema

---
 openapi31/jsonschema.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/openapi31/jsonschema.go b/openapi31/jsonschema.go
index 0a79a68..78e4737 100644
--- a/openapi31/jsonschema.go
+++ b/openapi31/jsonschema.go
@@ -38,8 +38,8 @@ func ToJSONSchema(s map[string]interface{}, spec *Spec) jsonschema.SchemaOrBool
 
 	findReferences(js, ctx)
 
-	// Inline root reference without recursions.
-	if js.TypeObjectEns().Ref != nil {
+	// Inline root reference without recursions and siblings.
+	if js.TypeObjectEns().Ref != nil && len(s) == 1 {
 		dstName := strings.TrimPrefix(*js.TypeObjectEns().Ref, componentsSchemas)
 		if ctx.refsCount[dstName] == 1 {
 			js = ctx.refsProcessed[dstName]
@@ -89,8 +89,6 @@ func findReferences(js jsonschema.SchemaOrBool, ctx toJSONSchemaContext) {
 
 			ctx.refsCount[dstName]++
 		}
-
-		return
 	}
 
 	for _, sub := range []*jsonschema.SchemaOrBool{
-- 
2.43.0

