package props

// Grammar of OpenAPI 3.0 documents, written from the specification.

func refObj(kind string) *node {
	return closedObject(fr("$ref", str("#/components/"+kind+"/Foo", "other.json#/Foo")))
}

var (
	uris     = []string{"https://example.com/a?b=c", "/rel", "other#frag"}
	names    = []string{"Foo", "a.b-c_D1"}
	mimes    = []string{"application/json", "text/*; q=1", "*/*"}
	anyNames = []string{"foo", "a b/~{}", "x-looks-like-ext"}
)

func uri() *node { return str(uris...) }

func grammar30() (grammar, []focus) {
	g := grammar{}
	orRef := func(name, kind string) *node { return alt(ref(name), refObj(kind)) }

	g["Contact"] = object(fo("name", str()), fo("url", uri()), fo("email", str("a@b.c")))
	g["License"] = object(fr("name", str()), fo("url", uri()))
	g["Info"] = object(fr("title", str()), fr("version", str("1.0", "")), fo("description", str()), fo("termsOfService", uri()),
		fo("contact", ref("Contact")), fo("license", ref("License")))
	g["ServerVariable"] = object(fr("default", str()), fo("enum", list(str("a", "b"))), fo("description", str()))
	g["Server"] = object(fr("url", str("https://{host}/", "/")), fo("description", str()), fo("variables", mapOf(ref("ServerVariable"), anyNames...)))
	g["ExternalDocumentation"] = object(fr("url", uri()), fo("description", str()))
	g["Tag"] = object(fr("name", str("t1")), fo("description", str()), fo("externalDocs", ref("ExternalDocumentation")))
	g["Discriminator"] = closedObject(fr("propertyName", str("kind", "")), fo("mapping", mapOf(str("#/components/schemas/Foo", "Bar"), anyNames...)))
	g["XML"] = object(fo("name", str()), fo("namespace", uri()), fo("prefix", str()), fo("attribute", boolean()), fo("wrapped", boolean()))

	schemaOrRef := orRef("Schema", "schemas")
	g["SchemaOrRef"] = schemaOrRef
	sr := ref("SchemaOrRef")
	g["Schema"] = object(
		fo("type", enum("string", "array", "boolean", "integer", "number", "object")),
		fo("title", str()), fo("multipleOf", number()), fo("maximum", number()), fo("exclusiveMaximum", boolean()),
		fo("minimum", number()), fo("exclusiveMinimum", boolean()), fo("maxLength", integer()), fo("minLength", integer()),
		fo("pattern", str("^a+$", "")), fo("maxItems", integer()), fo("minItems", integer()), fo("uniqueItems", boolean()),
		fo("maxProperties", integer()), fo("minProperties", integer()), fo("required", tuple(str("a", ""), str("b"))),
		fo("enum", tuple(anyv(), anyv())), fo("not", sr), fo("allOf", list(sr)), fo("oneOf", list(sr)), fo("anyOf", list(sr)),
		fo("items", sr), fo("properties", mapOf(sr, anyNames...)),
		fo("additionalProperties", alt(boolean(), sr)),
		fo("description", str()), fo("format", str("int32", "")), fo("default", anyv()), fo("nullable", boolean()),
		fo("discriminator", ref("Discriminator")), fo("readOnly", boolean()), fo("writeOnly", boolean()), fo("example", anyv()),
		fo("externalDocs", ref("ExternalDocumentation")), fo("deprecated", boolean()), fo("xml", ref("XML")),
	)
	g["Example"] = object(fo("summary", str()), fo("description", str()), fo("value", anyv()), fo("externalValue", uri(), "value"))
	exampleOrRef := orRef("Example", "examples")

	examples := []field{fo("example", anyv()), fo("examples", mapOf(exampleOrRef, anyNames...), "example")}
	g["Encoding"] = closedObject(fo("contentType", str("image/png")), fo("headers", mapOf(ref("Header"), anyNames...)),
		fo("style", enum("form", "spaceDelimited", "pipeDelimited", "deepObject")), fo("explode", boolean()), fo("allowReserved", boolean()))
	g["MediaType"] = object(fo("schema", sr)).with(examples...).with(fo("encoding", mapOf(ref("Encoding"), anyNames...)))
	content := mapOf(ref("MediaType"), mimes...)
	oneContent := mapOf(ref("MediaType"), "application/json", "text/plain")
	oneContent.keys = []string{"application/json"}

	hdr := []field{fo("description", str()), fo("required", boolean()), fo("deprecated", boolean()), fo("allowEmptyValue", boolean())}
	headerSchema := object(fr("schema", sr), fo("style", enum("simple"))).with(hdr...).with(fo("explode", boolean()), fo("allowReserved", boolean())).with(examples...)
	headerContent := object(fr("content", oneContent), fo("style", enum("simple"))).with(hdr...)
	g["HeaderSchema"], g["HeaderContent"] = headerSchema, headerContent
	g["Header"] = alt(headerSchema, headerContent)
	headerOrRef := orRef("Header", "headers")

	g["Link"] = object(fo("operationId", str("op1")), fo("operationRef", uri(), "operationId"), fo("parameters", mapOf(anyv(), anyNames...)),
		fo("requestBody", anyv()), fo("description", str()), fo("server", ref("Server")))
	linkOrRef := orRef("Link", "links")
	g["Response"] = object(fr("description", str()), fo("headers", mapOf(headerOrRef, anyNames...)), fo("content", content), fo("links", mapOf(linkOrRef, anyNames...)))
	responseOrRef := orRef("Response", "responses")
	g["Responses"] = object(fr("200", responseOrRef), fo("default", responseOrRef), fo("4XX", responseOrRef), fo("599", responseOrRef), fo("1XX", responseOrRef))

	prm := []field{fr("name", str("p", "", "X-Ünï")), fo("description", str()), fo("deprecated", boolean()), fo("allowEmptyValue", boolean())}
	mkParam := func(in string, reqNode *node, reqReq bool, styles ...string) {
		base := object(fr("in", enum(in)))
		if reqReq {
			base = base.with(fr("required", reqNode))
		} else {
			base = base.with(fo("required", reqNode))
		}
		base = base.with(prm...)
		g["Param:"+in+":schema"] = base.with(fr("schema", sr), fo("style", enum(styles...)), fo("explode", boolean()), fo("allowReserved", boolean())).with(examples...)
		g["Param:"+in+":content"] = base.with(fr("content", oneContent))
	}
	mkParam("query", boolean(), false, "form", "spaceDelimited", "pipeDelimited", "deepObject")
	mkParam("path", &node{kind: kVals, types: "b", vals: arr{true}}, true, "simple", "matrix", "label")
	mkParam("header", boolean(), false, "simple")
	mkParam("cookie", boolean(), false, "form")
	g["Parameter"] = alt(ref("Param:query:schema"), ref("Param:query:content"), ref("Param:header:schema"), ref("Param:cookie:schema"), ref("Param:path:schema"))
	paramOrRef := orRef("Parameter", "parameters")
	params := tuple(paramOrRef, ref("Param:header:schema"))

	g["RequestBody"] = object(fr("content", content), fo("description", str()), fo("required", boolean()))
	requestBodyOrRef := orRef("RequestBody", "requestBodies")
	g["SecurityRequirement"] = mapOf(alt(listEmpty(), list(str("scope1", ""))), anyNames...)
	security := list(alt(ref("SecurityRequirement"), constObj()))
	opSecurity := alt(security, listEmpty())
	g["Callback"] = &node{kind: kObj, types: "o", ext: true, open: true, fields: []field{fr("{$request.body#/url}", ref("PathItem")), fo("/cb", ref("PathItem"))}}
	callbackOrRef := orRef("Callback", "callbacks")
	g["Operation"] = object(fr("responses", ref("Responses")), fo("tags", list(str("t1", ""))), fo("summary", str()), fo("description", str()),
		fo("externalDocs", ref("ExternalDocumentation")), fo("operationId", str("op")), fo("parameters", params), fo("requestBody", requestBodyOrRef),
		fo("callbacks", mapOf(callbackOrRef, anyNames...)), fo("deprecated", boolean()), fo("security", opSecurity), fo("servers", list(ref("Server"))))
	pi := object(fo("$ref", uri()), fo("summary", str()), fo("description", str()), fo("servers", list(ref("Server"))), fo("parameters", params))
	for _, m := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
		pi = pi.with(fo(m, ref("Operation")))
	}
	g["PathItem"] = pi
	g["Paths"] = object(fo("/", ref("PathItem")), fo("/a/{id}", ref("PathItem")), fo("/x-y", ref("PathItem")))

	g["APIKeySecurityScheme"] = object(fr("type", enum("apiKey")), fr("name", str("X-Key")), fr("in", enum("header", "query", "cookie")), fo("description", str()))
	g["HTTPBasic"] = object(fr("type", enum("http")), fr("scheme", str("basic", "digest")), fo("description", str()))
	g["HTTPBearer"] = object(fr("type", enum("http")), fr("scheme", str("bearer")), fo("bearerFormat", str("JWT", "")), fo("description", str()))
	scopes := alt(mapOf(str("d", ""), anyNames...), constObj())
	g["ImplicitOAuthFlow"] = object(fr("authorizationUrl", uri()), fr("scopes", scopes), fo("refreshUrl", uri()))
	g["PasswordOAuthFlow"] = object(fr("tokenUrl", uri()), fo("scopes", mapOf(str("d", ""), anyNames...)), fo("refreshUrl", uri()))
	g["ClientCredentialsFlow"] = g["PasswordOAuthFlow"].with()
	g["AuthorizationCodeOAuthFlow"] = object(fr("authorizationUrl", uri()), fr("tokenUrl", uri()), fo("scopes", mapOf(str("d", ""), anyNames...)), fo("refreshUrl", uri()))
	g["OAuthFlows"] = object(fo("implicit", ref("ImplicitOAuthFlow")), fo("password", ref("PasswordOAuthFlow")),
		fo("clientCredentials", ref("ClientCredentialsFlow")), fo("authorizationCode", ref("AuthorizationCodeOAuthFlow")))
	g["OAuth2SecurityScheme"] = object(fr("type", enum("oauth2")), fr("flows", ref("OAuthFlows")), fo("description", str()))
	g["OpenIDConnectSecurityScheme"] = object(fr("type", enum("openIdConnect")), fr("openIdConnectUrl", uri()), fo("description", str()))
	g["SecurityScheme"] = alt(ref("APIKeySecurityScheme"), ref("HTTPBasic"), ref("HTTPBearer"), ref("OAuth2SecurityScheme"), ref("OpenIDConnectSecurityScheme"))

	comp := func(kind string, n *node) field { return fo(kind, mapOf(n, names...)) }
	g["Components"] = object(comp("schemas", sr), comp("responses", responseOrRef), comp("parameters", paramOrRef), comp("examples", exampleOrRef),
		comp("requestBodies", requestBodyOrRef), comp("headers", headerOrRef), comp("securitySchemes", orRef("SecurityScheme", "securitySchemes")),
		comp("links", linkOrRef), comp("callbacks", callbackOrRef))
	g["Spec"] = object(fr("openapi", str("3.0.3", "3.0.0")), fr("info", ref("Info")), fr("paths", alt(constObj(), ref("Paths"))), fo("externalDocs", ref("ExternalDocumentation")),
		fo("servers", list(ref("Server"))), fo("security", security), fo("tags", tuple(ref("Tag"), object(fr("name", str("t2"))))), fo("components", ref("Components")))

	root := func(k string, v interface{}) obj {
		o := obj{"openapi": "3.0.3", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
		o[k] = v
		return o
	}
	inOp := func(k string, v interface{}) obj {
		o := obj{"responses": obj{"204": obj{"description": "d"}}}
		o[k] = v
		return root("paths", obj{"/p": obj{"post": o}})
	}
	return g, foci(g, root, inOp, "openIdConnect")
}

func listEmpty() *node { return &node{kind: kVals, types: "a", vals: arr{arr{}}} }
func constObj() *node  { return &node{kind: kVals, types: "o", vals: arr{obj{}}} }

// foci lists focus objects that are common for both versions.
func foci(g grammar, root, inOp func(k string, v interface{}) obj, _ string) (res []focus) {
	add := func(name string, host func(v interface{}) obj) {
		if n, ok := g[name]; ok {
			res = append(res, focus{name: name, n: n, host: host})
		}
	}
	component := func(kind string) func(v interface{}) obj {
		return func(v interface{}) obj { return root("components", obj{kind: obj{"Foo": v}}) }
	}
	add("Spec", func(v interface{}) obj { return mustObj(v) })
	add("Info", func(v interface{}) obj { return root("info", v) })
	add("Contact", func(v interface{}) obj { return root("info", obj{"title": "t", "version": "v", "contact": v}) })
	add("License", func(v interface{}) obj { return root("info", obj{"title": "t", "version": "v", "license": v}) })
	add("Server", func(v interface{}) obj { return root("servers", arr{v}) })
	add("ServerVariable", func(v interface{}) obj { return root("servers", arr{obj{"url": "/", "variables": obj{"v": v}}}) })
	add("ExternalDocumentation", func(v interface{}) obj { return root("externalDocs", v) })
	add("Tag", func(v interface{}) obj { return root("tags", arr{v}) })
	add("SecurityRequirement", func(v interface{}) obj { return root("security", arr{v}) })
	add("Components", func(v interface{}) obj { return root("components", v) })
	add("SchemaOrRef", component("schemas"))
	add("Schema", component("schemas"))
	add("Discriminator", func(v interface{}) obj { return component("schemas")(obj{"discriminator": v}) })
	add("XML", func(v interface{}) obj { return component("schemas")(obj{"xml": v}) })
	add("SpecNoPaths", func(v interface{}) obj { return mustObj(v) })
	add("LinkRef", component("links"))
	add("PathItemRef", func(v interface{}) obj { return root("paths", obj{"/p": v}) })
	add("OperationNoResp", func(v interface{}) obj { return root("paths", obj{"/p": obj{"get": v}}) })
	add("Paths", func(v interface{}) obj { return root("paths", v) })
	add("PathItem", func(v interface{}) obj { return root("paths", obj{"/p": v}) })
	add("WebhookItem", func(v interface{}) obj { return root("webhooks", obj{"hook": v}) })
	add("PathItemComponent", component("pathItems"))
	add("Operation", func(v interface{}) obj { return root("paths", obj{"/p": obj{"get": v}}) })
	add("Responses", func(v interface{}) obj { return inOp("responses", v) })
	add("Response", func(v interface{}) obj { return inOp("responses", obj{"200": v}) })
	add("MediaType", func(v interface{}) obj { return inOp("requestBody", obj{"content": obj{"application/json": v}}) })
	add("Encoding", func(v interface{}) obj {
		return inOp("requestBody", obj{"content": obj{"multipart/form-data": obj{"encoding": obj{"f": v}}}})
	})
	add("Example", component("examples"))
	add("HeaderSchema", component("headers"))
	add("HeaderContent", component("headers"))
	for _, in := range []string{"query", "path", "header", "cookie"} {
		for _, k := range []string{"schema", "content"} {
			add("Param:"+in+":"+k, func(v interface{}) obj { return inOp("parameters", arr{v}) })
		}
	}
	add("RequestBody", func(v interface{}) obj { return inOp("requestBody", v) })
	add("Link", component("links"))
	add("Callback", component("callbacks"))
	for _, n := range []string{"APIKeySecurityScheme", "HTTPBasic", "HTTPBearer", "OAuth2SecurityScheme", "OpenIDConnectSecurityScheme", "MutualTLS"} {
		add(n, component("securitySchemes"))
	}
	oauth := func(v interface{}) obj { return component("securitySchemes")(obj{"type": "oauth2", "flows": v}) }
	add("OAuthFlows", oauth)
	add("ImplicitOAuthFlow", func(v interface{}) obj { return oauth(obj{"implicit": v}) })
	add("PasswordOAuthFlow", func(v interface{}) obj { return oauth(obj{"password": v}) })
	add("ClientCredentialsFlow", func(v interface{}) obj { return oauth(obj{"clientCredentials": v}) })
	add("AuthorizationCodeOAuthFlow", func(v interface{}) obj { return oauth(obj{"authorizationCode": v}) })
	return res
}
