package props

// Grammar of OpenAPI 3.1 documents, written from the specification. Schemas are plain JSON
// Schema 2020-12 objects: the keywords are free form values for this library.

func grammar31() (grammar, []focus) {
	g := grammar{}
	refObj31 := func(kind string) *node {
		return closedObject(fr("$ref", str("#/components/"+kind+"/Foo", "other.json#/Foo")), fo("summary", str()), fo("description", str()))
	}
	orRef := func(name, kind string) *node { return alt(ref(name), refObj31(kind)) }

	g["Contact"] = object(fo("name", str()), fo("url", uri()), fo("email", str("a@b.c")))
	g["License"] = object(fr("name", str()), fo("identifier", str("MIT", "")), fo("url", uri(), "identifier"))
	g["Info"] = object(fr("title", str()), fr("version", str("1.0", "")), fo("summary", str()), fo("description", str()), fo("termsOfService", uri()),
		fo("contact", ref("Contact")), fo("license", ref("License")))
	g["ServerVariable"] = object(fr("default", str()), fo("enum", list(str("a", "b"))), fo("description", str()))
	g["Server"] = object(fr("url", str("https://{host}/", "/")), fo("description", str()), fo("variables", mapOf(ref("ServerVariable"), anyNames...)))
	g["ExternalDocumentation"] = object(fr("url", uri()), fo("description", str()))
	g["Tag"] = object(fr("name", str("t1")), fo("description", str()), fo("externalDocs", ref("ExternalDocumentation")))

	sr := ref("Schema")
	sub := closedObject(fr("$ref", str("#/components/schemas/Foo", "#")), fo("description", str()))
	g["Schema"] = &node{kind: kObj, types: "o", ext: true, open: true, fields: []field{
		fr("title", str("t", "")), fo("type", alt(enum("string", "object", "null"), list(str("string", "null")))),
		fo("$ref", str("#/components/schemas/Foo")), fo("$schema", uri()), fo("$id", uri()), fo("$anchor", str("a")), fo("$comment", str()),
		fo("$defs", mapOf(sub, anyNames...)), fo("const", anyv()), fo("enum", tuple(anyv(), anyv())), fo("default", anyv()), fo("examples", list(anyv())),
		fo("example", anyv()), fo("maximum", number()), fo("exclusiveMinimum", number()), fo("maxLength", integer()), fo("pattern", str()),
		fo("required", tuple(str("a", ""), str("b"))), fo("properties", mapOf(alt(sub, boolean()), anyNames...)), fo("items", alt(sub, boolean())),
		fo("prefixItems", list(sub)), fo("additionalProperties", alt(boolean(), sub)), fo("unevaluatedProperties", boolean()),
		fo("allOf", list(sub)), fo("oneOf", list(alt(sub, boolean()))), fo("not", alt(sub, constObj())), fo("discriminator", closedObject(fr("propertyName", str("k")))),
		fo("xml", closedObject(fo("name", str()))), fo("contentMediaType", str("image/png")), fo("deprecated", boolean()), fo("unknownKeyword", anyv()),
	}}
	g["Example"] = object(fo("summary", str()), fo("description", str()), fo("value", anyv()), fo("externalValue", uri(), "value"))
	exampleOrRef := orRef("Example", "examples")
	examples := []field{fo("example", anyv()), fo("examples", mapOf(exampleOrRef, anyNames...), "example")}
	headerOrRef := orRef("Header", "headers")
	g["Encoding"] = object(fo("contentType", str("image/png")), fo("headers", mapOf(headerOrRef, anyNames...)),
		fo("style", enum("form", "spaceDelimited", "pipeDelimited", "deepObject")), fo("explode", boolean()), fo("allowReserved", boolean()))
	g["MediaType"] = object(fo("schema", sr)).with(examples...).with(fo("encoding", mapOf(ref("Encoding"), anyNames...)))
	content := mapOf(ref("MediaType"), mimes...)
	oneContent := mapOf(ref("MediaType"), "application/json")

	hdr := []field{fo("description", str()), fo("required", boolean()), fo("deprecated", boolean())}
	headerSchema := object(fr("schema", sr), fo("style", enum("simple"))).with(hdr...).with(fo("explode", boolean())).with(examples...)
	headerContent := object(fr("content", oneContent), fo("style", enum("simple"))).with(hdr...)
	g["HeaderSchema"], g["HeaderContent"] = headerSchema, headerContent
	g["Header"] = alt(headerSchema, headerContent)

	g["Link"] = object(fr("operationId", str("op1"))).with(fo("parameters", mapOf(str("$request.path.id", ""), anyNames...)),
		fo("requestBody", anyv()), fo("description", str()), fo("server", ref("Server")))
	g["LinkRef"] = object(fr("operationRef", uri())).with(fo("parameters", mapOf(str("v"), anyNames...)), fo("description", str()))
	linkOrRef := orRef("Link", "links")
	g["Response"] = object(fr("description", str()), fo("headers", mapOf(headerOrRef, anyNames...)), fo("content", content), fo("links", mapOf(linkOrRef, anyNames...)))
	responseOrRef := orRef("Response", "responses")
	g["Responses"] = object(fr("200", responseOrRef), fo("default", responseOrRef), fo("4XX", responseOrRef), fo("599", responseOrRef), fo("1XX", responseOrRef))

	prm := []field{fr("name", str("p", "", "X-Ünï")), fo("description", str()), fo("deprecated", boolean())}
	mkParam := func(in string, reqNode *node, reqReq bool, styles ...string) {
		base := object(fr("in", enum(in)))
		if reqReq {
			base = base.with(fr("required", reqNode))
		} else {
			base = base.with(fo("required", reqNode))
		}
		base = base.with(prm...)
		if in == "query" {
			base = base.with(fo("allowEmptyValue", boolean()))
		}
		s := base.with(fr("schema", sr), fo("style", enum(styles...)), fo("explode", boolean())).with(examples...)
		if in == "query" {
			s = s.with(fo("allowReserved", boolean()))
		}
		g["Param:"+in+":schema"] = s
		g["Param:"+in+":content"] = base.with(fr("content", oneContent))
	}
	mkParam("query", boolean(), false, "form", "spaceDelimited", "pipeDelimited", "deepObject")
	mkParam("path", &node{kind: kVals, types: "b", vals: arr{true}}, true, "simple", "matrix", "label")
	mkParam("header", boolean(), false, "simple")
	mkParam("cookie", boolean(), false, "form")
	g["Parameter"] = alt(ref("Param:query:schema"), ref("Param:query:content"), ref("Param:header:schema"), ref("Param:cookie:schema"), ref("Param:path:schema"))
	paramOrRef := orRef("Parameter", "parameters")
	params := tuple(paramOrRef, ref("Param:header:schema"))

	g["RequestBody"] = object(fr("content", content), fo("description", str()), fo("required", boolean()))
	requestBodyOrRef := orRef("RequestBody", "requestBodies")
	g["SecurityRequirement"] = mapOf(alt(listEmpty(), list(str("scope1", ""))), anyNames...)
	security := list(alt(ref("SecurityRequirement"), constObj()))
	opSecurity := alt(security, listEmpty())
	g["Callback"] = &node{kind: kObj, types: "o", ext: true, open: true, fields: []field{fr("{$request.body#/url}", ref("PathItem")), fo("/cb", refObj31("pathItems"))}}
	callbackOrRef := orRef("Callback", "callbacks")
	g["Operation"] = object(fr("responses", ref("Responses")), fo("tags", list(str("t1", ""))), fo("summary", str()), fo("description", str()),
		fo("externalDocs", ref("ExternalDocumentation")), fo("operationId", str("op")), fo("parameters", params), fo("requestBody", requestBodyOrRef),
		fo("callbacks", mapOf(callbackOrRef, anyNames...)), fo("deprecated", boolean()), fo("security", opSecurity), fo("servers", list(ref("Server"))))
	g["OperationNoResp"] = object(fo("summary", str()))
	pi := object(fo("summary", str()), fo("description", str()), fo("servers", list(ref("Server"))), fo("parameters", params))
	for _, m := range []string{"get", "put", "post", "delete", "options", "head", "patch", "trace"} {
		pi = pi.with(fo(m, ref("Operation")))
	}
	g["PathItem"] = pi
	g["PathItemRef"] = object(fr("$ref", uri()), fo("summary", str()), fo("get", ref("Operation")))
	g["WebhookItem"] = orRef("PathItem", "pathItems")
	g["PathItemComponent"] = g["WebhookItem"]
	g["Paths"] = object(fo("/", ref("PathItem")), fo("/a/{id}", ref("PathItem")), fo("/x-y", ref("PathItem")))

	sec := func(fs ...field) *node { return object(fs...).with(fo("description", str())) }
	g["APIKeySecurityScheme"] = sec(fr("type", enum("apiKey")), fr("name", str("X-Key")), fr("in", enum("header", "query", "cookie")))
	g["HTTPBasic"] = sec(fr("type", enum("http")), fr("scheme", str("basic", "digest")))
	g["HTTPBearer"] = sec(fr("type", enum("http")), fr("scheme", str("bearer", "Bearer")), fo("bearerFormat", str("JWT", "")))
	scopes := alt(mapOf(str("d", ""), anyNames...), constObj())
	g["ImplicitOAuthFlow"] = object(fr("authorizationUrl", uri()), fr("scopes", scopes), fo("refreshUrl", uri()))
	g["PasswordOAuthFlow"] = object(fr("tokenUrl", uri()), fr("scopes", scopes), fo("refreshUrl", uri()))
	g["ClientCredentialsFlow"] = g["PasswordOAuthFlow"].with()
	g["AuthorizationCodeOAuthFlow"] = object(fr("authorizationUrl", uri()), fr("tokenUrl", uri()), fr("scopes", scopes), fo("refreshUrl", uri()))
	g["OAuthFlows"] = object(fo("implicit", ref("ImplicitOAuthFlow")), fo("password", ref("PasswordOAuthFlow")),
		fo("clientCredentials", ref("ClientCredentialsFlow")), fo("authorizationCode", ref("AuthorizationCodeOAuthFlow")))
	g["OAuth2SecurityScheme"] = sec(fr("type", enum("oauth2")), fr("flows", ref("OAuthFlows")))
	g["OpenIDConnectSecurityScheme"] = sec(fr("type", enum("openIdConnect")), fr("openIdConnectUrl", uri()))
	g["MutualTLS"] = sec(fr("type", enum("mutualTLS")))
	g["SecurityScheme"] = alt(ref("APIKeySecurityScheme"), ref("HTTPBasic"), ref("HTTPBearer"), ref("OAuth2SecurityScheme"), ref("OpenIDConnectSecurityScheme"), ref("MutualTLS"))

	comp := func(kind string, n *node) field { return fo(kind, mapOf(n, names...)) }
	g["Components"] = object(comp("schemas", sr), comp("responses", responseOrRef), comp("parameters", paramOrRef), comp("examples", exampleOrRef),
		comp("requestBodies", requestBodyOrRef), comp("headers", headerOrRef), comp("securitySchemes", orRef("SecurityScheme", "securitySchemes")),
		comp("links", linkOrRef), comp("callbacks", callbackOrRef), comp("pathItems", ref("PathItemComponent")))
	g["Spec"] = object(fr("openapi", str("3.1.0", "3.1.1")), fr("info", ref("Info")), fr("paths", alt(constObj(), ref("Paths"))), fo("externalDocs", ref("ExternalDocumentation")),
		fo("jsonSchemaDialect", uri()), fo("servers", list(ref("Server"))), fo("security", security), fo("tags", tuple(ref("Tag"), object(fr("name", str("t2"))))),
		fo("components", ref("Components")), fo("webhooks", mapOf(ref("WebhookItem"), anyNames...)))
	g["SpecNoPaths"] = object(fr("openapi", str("3.1.0")), fr("info", ref("Info")), fr("webhooks", mapOf(ref("WebhookItem"), anyNames...)))

	root := func(k string, v interface{}) obj {
		o := obj{"openapi": "3.1.0", "info": obj{"title": "t", "version": "v"}, "paths": obj{}}
		o[k] = v
		return o
	}
	inOp := func(k string, v interface{}) obj {
		o := obj{"responses": obj{"204": obj{"description": "d"}}}
		o[k] = v
		return root("paths", obj{"/p": obj{"post": o}})
	}
	return g, foci(g, root, inOp, "openIdConnect")
}
