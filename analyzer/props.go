package main

// properties: which rules and which part of the confirmed relation decide each property.
var properties = []Property{
	{ID: "C01", Scope: []Scope{{Keys: `^(call|defer) sync\.`}, {Files: `^grpc/federation/log/`}}, Rules: []Rule{{"guarded-by", "every access to shared state listed in the specification happens with its lock held on every path, exclusively for writes; no live reference leaves the lock", ruleGuardedBy}}, Tmpl: []TScope{{"", "go func|Mutex|Lock|WithLogger|LogAttrs|celCacheMap"}}},
	{ID: "C02", Scope: []Scope{{Keys: `^(call|defer) .*\.(Close|Unlock|RUnlock|Done|Stop|CloseWithExitCode|Release|Cancel|Remove)$`}, {Keys: `^defer `}, {Files: `^grpc/federation/cel/plugin\.go`, Keys: `^(call|defer|go|send|cret|ret)`}}, Rules: []Rule{{"lock-balance", "every lock is released on every way out, in the mode it was taken; no double acquisition, no opposite acquisition orders", ruleLockBalance}}, Tmpl: []TScope{{"", "defer|Close|Lock|cancel|Finish|End \\("}}},
	{ID: "C03", Scope: []Scope{{Keys: `^(go |panic|defer )`}, {Files: `^grpc/federation/(error|lib)\.go`}, {Files: `^lsp/server/(text_document_sync|server)\.go`}}, Tmpl: []TScope{{"", "recover|GoWithRecover|RecoverError"}, {"^server", "func \\("}}},
	{ID: "C04", Scope: []Scope{{Files: `^grpc/federation/(cel|lib|cel_plugin|cast|context|alias|error|validation)\.go`, Keys: `ret`}, {Files: `^grpc/federation/cel/`, Keys: `ret`}, {Files: `^grpc/federation/(cel|error|lib)\.go`}}, Tmpl: []TScope{{"", "err|Err|panic"}, {"^(errorHandler|declDef|evalDefGroup|evalDefSet|setCEL|setReturnValue|messageValidation|castRequired|plugin|retry)", ""}}},
	{ID: "C05", Scope: []Scope{{Files: `^(generator|compiler|cmd|resolver|validator|source)/`, Keys: `^c?ret err`}, {Files: `^grpc/federation/generator/`, Keys: `^c?ret err`}, {Files: `^generator/(generator|config|watcher|wasm)\.go`}, {Files: `^cmd/`}, {Files: `^resolver/(error|context)\.go`}, {Keys: `addErr`}}},
	{ID: "C06", Scope: []Scope{{Files: `^grpc/federation/(lib|alias)\.go`}, {Files: `^grpc/federation/cel/(plugin|context)\.go`}, {Keys: `context\.With|signal\.`}}, Tmpl: []TScope{{"", "Timeout|WithRetry|BackOff|backoff|retry|ctx|context|errgroup"}, {"^retry", ""}}, Rules: []Rule{{"context-flow", "where the context of the request is at hand, every call that takes a context receives one derived from it", ruleCtxFlow}}},
	{ID: "C07", Scope: []Scope{{Files: `^grpc/federation/cel/(plugin|lib|context|conv)\.go`}, {Files: `^grpc/federation/cel_plugin\.go`}}, Tmpl: []TScope{{"^plugin", ""}, {"", "[Pp]lugin"}}},
	{ID: "C08", Scope: []Scope{{Funcs: `NewCELPlugin|CELPlugin\)\.|evalCodeGeneratorPlugin|evalAllCodeGenerationPlugin|SchemeOption|parsePluginsOption|parseOpt|downloadFile`}, {Files: `^generator/wasm\.go`}}},
	{ID: "C09", Scope: []Scope{{Files: `^grpc/federation/(cast|cel_plugin)\.go`}, {Files: `^grpc/federation/cel/(cast|enum|math|rand)\.go`}, {Funcs: `generator\.(\(CastField\)|requiredCast|castFuncName|castName)`}, {Funcs: `EnumAccessorOptions|EnumAttrOption`}}, Tmpl: []TScope{{"^cast", ""}, {"", "[Cc]ast|Int32|Uint32|int32|uint32|Number"}}},
	{ID: "C10", Scope: []Scope{{Files: `^types/`}, {Files: `^resolver/(types|wellknown_types|cel)\.go`}, {Funcs: `fromCELType|ToCELType|toTypeText|toMakeZeroValue|toCELTypeDeclare|TypeToText|GoGRPCStatusCode|LogLevelValue|logType|toCELNativeType|resolveGRPCErrorLogLevel|resolveEnvType|resolvePluginType|resolveType$`}, {Files: `^grpc/federation/generator/`, Funcs: `Type|Kind|Level|Code`}, {Funcs: `generator\.\(CEL|toOneofType`}}},
	{ID: "C11", Scope: []Scope{{Files: `^grpc/federation/cel/(strings|time|url|list|rand|uuid|math|enum|log|metadata|bind|cast|conv|lib)\.go`}, {Funcs: `EnumAccessorOptions|EnumAttrOption|enumOperators|createEnumAccessors`}}, Tmpl: []TScope{{"^plugin", ""}, {"", "(BindMember|BindFunction|OverloadFunc|EnumAccessor|EnumAttr|grpcfedcel)"}}},
	{ID: "C12", Scope: []Scope{{Files: `^grpc/federation/log/`}, {Files: `^grpc/federation/(context|error)\.go`}, {Files: `^source/(clone|location_builder)\.go`}, {Funcs: `\.Clone$|cloneFileDefs|With[A-Z][A-Za-z]*$`}}, Tmpl: []TScope{{"", "WithLogger|LogAttrs|ctx :?=|:= ctx|NewLocalValue|newLocalValue|NewServiceVariable"}}, Rules: []Rule{{"append-owner", "a slice owned by someone else is never appended to in place", ruleAppendOwner}}},
	{ID: "C13", Scope: []Scope{{Files: `^grpc/federation/generator/`}}},
	{ID: "C14", Scope: []Scope{{Keys: `^call (sort|slices)\.`}, {Files: `^generator/code_generator\.go`, Funcs: `Imports|EnumAttributes|Types|OneofTypes|Enums|LogValues|ServiceDependencies|CustomResolvers|DependentMethods|CELPlugins`}, {Files: `^validator/`}, {Funcs: `GoPackageDependencies|otherResults|UseServices|DependencyGraph|DefinitionGroups`}}},
	{ID: "C15", Scope: []Scope{{Files: `^resolver/(def|value|graph|service)\.go`}, {Files: `^grpc/federation/cel/conv\.go`}, {Funcs: `lookupPackageNameMap|resolveUsedNameReference|resolveMessageDependencies|resolveGRPCErrorMessageDependencies|ReferenceName|MarkUsed|UseAllNameReference|validateFileImport|dependServices|DependServices|AllVariableDefinitions|HasCELValue|AutoBind|CELValues`}, {Funcs: `dependentMethods|DependentMethods|Arguments|ServiceDependencies`}}},
	{ID: "C16", Scope: []Scope{{Files: `^resolver/`, Keys: `addErr|addWarn|^c?ret err`}, {Funcs: `resolver\..*(validate|Validate|isDifferentType|isExactlySameType|find[A-Z][a-z]*AliasName|HasRuleEveryFields|HasRule|HasFieldRule|HasResolvers|requiredTypeConversion)`}, {Files: `^resolver/(context|enum|field|oneof|fqdn|extension)\.go`}, {Files: `^resolver/resolver\.go`}}},
	{ID: "C17", Scope: []Scope{{Files: `^source/`}, {Files: `^resolver/error\.go`}, {Files: `^resolver/`, Keys: `addErr|addWarn`}, {Files: `^resolver/resolver\.go`, Keys: `call |^c?ret err`}}},
	{ID: "C18", Scope: []Scope{{Files: `^resolver/(resolver|message|field|enum|oneof|service|method|extension|fqdn|file|cel|std_fd|context|types|value|def)\.go`}}},
	{ID: "C19", Scope: []Scope{{Files: `^generator/(code_generator|protoc_gen_go_grpc|funcs)\.go`}, {Files: `^util/`}, {Files: `^resolver/(service|def|message)\.go`}}, Tmpl: []TScope{{"", ""}}},
	{ID: "C20", Scope: []Scope{{Files: `^resolver/graph\.go`}, {Funcs: `VariableDefinitionGroups|DefinitionGroups|DependencyGraph|VariableDefinitionGroup\)|VariableDefinitionSet\)|resolveMessageDependencies|resolveGRPCErrorMessageDependencies|ReferenceNames|MessageExprs|MessageToDefsMap|VariableDefinitions`}}, Tmpl: []TScope{{"^evalDef", ""}, {"^declDef", ""}, {"", "evalDef|eg ,|errgroup|Wait"}}},
	{ID: "C21", Scope: []Scope{{Files: `^grpc/federation/(cel|context|const)\.go`}, {Funcs: `CELCacheIndex|generator\.\(VariableDefinition\)`}}, Tmpl: []TScope{{"^(declDef|evalDef|evalMessageDef|setCEL|setArgument|setReturnValue|setEnumValue|messageValidation|errorHandler)", ""}, {"", "CacheIndex|AddEnv|AddServiceVariable|LocalValue|EvalCEL|If \\("}}},
	{ID: "C22", Scope: []Scope{{Files: `^grpc/federation/(error|validation|lib|otel)\.go`}, {Files: `^grpc/federation/log/`}, {Funcs: `SetGRPCError|IgnoreAndResponse|generator\.\((GRPCError|PreconditionFailure|BadRequest|LocalizedMessage|ValidationRule|ValidationError|Validation|MessageSet)[A-Za-z]*\)|GRPCErrors|HasErrorHandler|resolveGRPC|resolvePrecondition|resolveBadRequest|resolveLocalized|resolveValidation|resolveRetry|MaxRetries`}}, Tmpl: []TScope{{"^(errorHandler|detailMessages|preconditionFailure|badRequest|localizedMessage|retry|messageValidation)", ""}, {"", "GRPC|grpcStatus|Status|retry|Retry|ErrorHandler|customResponse|UseTimeout"}}},
	{ID: "C23", Scope: []Scope{{Files: `^lsp/`}, {Files: `^resolver/candidates\.go`}, {Files: `^cmd/grpc-federation-language-server/`}, {Files: `^source/file\.go`}}},
	{ID: "C24", Scope: []Scope{{Files: `^generator/(generator|config|watcher|wasm)\.go`}, {Files: `^cmd/(grpc-federation-generator|protoc-gen-grpc-federation)/`}, {Files: `^resolver/file\.go`}, {Funcs: `ResolveGoPackage|splitGoPackageName|resultFiles`}}},
	{ID: "C25", Scope: []Scope{{Files: `^validator/`}, {Files: `^cmd/grpc-federation-linter/`}, {Files: `^resolver/(error|context)\.go`}, {Files: `^compiler/`}, {Files: `^lsp/server/validator\.go`}}},
	{ID: "C26", Scope: []Scope{{Files: `^compiler/`}, {Files: `^resolver/std_fd\.go`}, {Funcs: `resolveFileImport|resolver.*compileProto|findProto|cloneFileDefs|ResolveWellknownFiles|resolvePackageAndFileReference|createProtoPathMap|importPath|ImportPath|filePathFromFileDescriptorProto|resolver\.New$|resolveFiles|RelativePath`}}},
	{ID: "C27", Scope: []Scope{{Files: `^resolver/format\.go`}, {Funcs: `DependencyGraphTreeFormat|ProtoFormat`}}},
	{ID: "C28", Scope: []Scope{{Files: `^resolver/type_conversion\.go`}, {Funcs: `TypeConversionDecls|generator\.\(Cast[A-Za-z]*\)|requiredCast|castFuncName|castName|AutoBind|autoBind|findMessageAliasName|findEnumAliasName|resolver\.\(Type\)\.Clone|CastFields|ReturnFields|celValueToReturnField|oneofValueToReturnField|createEnumSelectorParam|isExactlySameType|isDifferentType|customResolverToReturnField|toEnum|isDifferent`}}, Tmpl: []TScope{{"^cast", ""}, {"^setReturnValue", ""}, {"^setEnumValue", ""}, {"^setArgument", ""}, {"", "[Cc]ast"}}},
}
