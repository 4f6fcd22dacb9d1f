"""The grammar of Scilla that the rules document, with the syntax tree each construct stands for.

One line per alternative:  form => tree.
Form: terminals in quotes, token classes in capitals (ID, SPID, CID, TID, BYSTRN, NUM, HEX, STR), nonterminals,
labels `name:symbol`, and ( ... ) with ? * + .  Tree: @T a node with the span of the whole construct, T(k=v) a
variant or struct with its parts, [a, *b] a list (* splices the list of a repetition), a label a part,
~label an optional part, 'x'<label> the text x with the span of the labelled symbol.  In a rule of the form
`name = ...` (lower case) the name is a helper that is always expanded."""

CLASSES = {'ID': 'Identifier', 'SPID': 'SpecialIdentifier', 'CID': 'CustomIdentifier', 'TID': 'TemplateIdentifier', 'BYSTRN': 'ByStrWithSize',
           'NUM': 'Number', 'HEX': 'HexNumber', 'STR': 'StringLiteral'}
SPELL = {'+': 'Plus', '*': 'Asterisk', ';': 'Semicolon', ':': 'Colon', '.': 'Dot', '|': 'Pipe', '[': 'OpenBracket', ']': 'CloseBracket', '(': 'OpenParen', ')': 'CloseParen',
         '{': 'OpenBrace', '}': 'CloseBrace', ',': 'Comma', '=>': 'DoubleArrow', '->': 'Arrow', '=': 'Equals', '&': 'Ampersand', '<-': 'LeftArrow', ':=': 'ColonEquals',
         '@': 'At', '-': 'Minus', '_': 'Underscore', 'scilla_version': 'ScillaVersion', 'Event': 'EventType', 'event': 'Event', 'ByStr': 'ByStr', 'Map': 'Map', 'Emp': 'Emp'}
for w in 'forall builtin library import let in match with end fun tfun contract transition send field accept exists delete throw type of as procedure'.split():
    SPELL[w] = w.capitalize()

SPEC = r'''
id = t:ID => @t
spid = t:SPID => @t
cid = t:CID => @t
tid = t:TID => @t
num = t:NUM => @t
hex = t:HEX => @t
str = t:STR => @t
bystr = t:BYSTRN => Type(0=@t)

TypeNameIdentifier = b:bystr => @ByteStringType(0=b)
TypeNameIdentifier = "Event" => @EventType
TypeNameIdentifier = c:cid => @TypeOrEnumLikeIdentifier(0=c)

ImportedName = n:TypeNameIdentifier => @RegularImport(0=n)
ImportedName = n:TypeNameIdentifier "as" v:TypeNameIdentifier => @AliasedImport(0=n, 1=v)
importdecls = "import" n:ImportedName+ ("import" m:ImportedName)* => @NodeImportDeclarations(import_list=[*n, *m])

MetaIdentifier = n:TypeNameIdentifier => @MetaName(0=n)
MetaIdentifier = l:TypeNameIdentifier "." r:TypeNameIdentifier => @MetaNameInNamespace(0=l, 1=r)
MetaIdentifier = l:hex "." r:TypeNameIdentifier => @MetaNameInHexspace(0=l, 1=r)
MetaIdentifier = "ByStr" => @ByteString

VariableIdentifier = n:id => @VariableName(0=n)
VariableIdentifier = n:spid => @SpecialIdentifier(0=n)
VariableIdentifier = n:TypeNameIdentifier "." r:id => @VariableInNamespace(0=n, 1=r)

builtinargs = a:VariableIdentifier+ => @NodeBuiltinArguments(arguments=[*a])
builtinargs = "(" ")" => @NodeBuiltinArguments(arguments=[])

basetype = n:MetaIdentifier a:TypeArgument* => @GenericTypeWithArgs(0=n, 1=[*a])
basetype = "Map" k:TypeMapKey v:TypeMapValue => @MapType(0=k, 1=v)
basetype = "(" t:ScillaType ")" => @EnclosedType(0=t)
basetype = a:AddressType => @ScillaAddresseType(0=a)
basetype = t:tid => @TypeVarType(0=t)
ScillaType = t:basetype => t
ScillaType = f:basetype "->" t:ScillaType => @FunctionType(0=f, 1=t)
ScillaType = "forall" v:tid "." t:ScillaType => @PolyFunctionType(0=v, 1=t)

TypeArgument = "(" t:ScillaType ")" => @EnclosedTypeArgument(0=t)
TypeArgument = n:MetaIdentifier => @GenericTypeArgument(0=n)
TypeArgument = t:tid => @TemplateTypeArgument(0=t)
TypeArgument = a:AddressType => @AddressTypeArgument(0=a)
TypeArgument = "Map" k:TypeMapKey v:TypeMapValue => @MapTypeArgument(0=k, 1=v)

AddressType = n:TypeNameIdentifier "with" "end" => @NodeAddressType(identifier=n, type_name=''<?>, address_fields=[])
AddressType = n:TypeNameIdentifier "with" k:"contract" "end" => @NodeAddressType(identifier=n, type_name='contract'<k>, address_fields=[])
AddressType = n:TypeNameIdentifier "with" k:"contract" a:AddressTypeField ("," b:AddressTypeField)* "end" => @NodeAddressType(identifier=n, type_name='contract'<k>, address_fields=[a, *b])
AddressType = n:TypeNameIdentifier "with" k:"library" "end" => @NodeAddressType(identifier=n, type_name='library'<k>, address_fields=[])
AddressType = n:TypeNameIdentifier "with" k:spid "end" => @NodeAddressType(identifier=n, type_name=k, address_fields=[])
AddressTypeField = "field" n:VariableIdentifier ":" t:ScillaType => @NodeAddressTypeField(identifier=n, type_name=t)

TypeMapKey = n:MetaIdentifier => @GenericMapKey(0=n)
TypeMapKey = "(" n:MetaIdentifier ")" => @EnclosedGenericId(0=n)
TypeMapKey = "(" a:AddressType ")" => @EnclosedAddressMapKeyType(0=a)
TypeMapKey = a:AddressType => @AddressMapKeyType(0=a)

TypeMapValue = n:MetaIdentifier => @MapValueTypeOrEnumLikeIdentifier(0=n)
TypeMapValue = "Map" k:TypeMapKey v:TypeMapValue => @MapKeyValue(0=@NodeTypeMapEntry(key=k, value=v))
TypeMapValue = "(" t:TypeMapValueAllowingTypeArguments ")" => @MapValueParenthesizedType(0=t)
TypeMapValue = a:AddressType => @MapValueAddressType(0=a)

TypeMapValueArguments = "(" t:TypeMapValueAllowingTypeArguments ")" => @EnclosedTypeMapValue(0=t)
TypeMapValueArguments = n:MetaIdentifier => @GenericMapValueArgument(0=n)
TypeMapValueArguments = "Map" k:TypeMapKey v:TypeMapValue => @MapKeyValueType(0=k, 1=v)

TypeMapValueAllowingTypeArguments = n:MetaIdentifier a:TypeMapValueArguments+ => @TypeMapValueWithArgs(0=n, 1=[*a])
TypeMapValueAllowingTypeArguments = t:TypeMapValue => @TypeMapValueNoArgs(0=t)

Program = "scilla_version" v:num i:importdecls? l:LibraryDefinition? c:ContractDefinition => NodeProgram(version=v, import_declarations=~i, library_definition=~l, contract_definition=c)
LibraryDefinition = "library" n:TypeNameIdentifier d:LibrarySingleDefinition* => @NodeLibraryDefinition(name=n, definitions=[*d])
LibrarySingleDefinition = "let" n:id t:TypeAnnotation? "=" e:FullExpression => @LetDefinition(variable_name=n, type_annotation=~t, expression=e)
LibrarySingleDefinition = "type" n:TypeNameIdentifier => @TypeDefinition(0=n, 1=none)
LibrarySingleDefinition = "type" n:TypeNameIdentifier "=" c:TypeAlternativeClause+ => @TypeDefinition(0=n, 1=some([*c]))
TypedIdentifier = n:id t:TypeAnnotation => @NodeTypedIdentifier(identifier_name=n, annotation=t)
TypeAnnotation = ":" t:ScillaType => @NodeTypeAnnotation(type_name=t)
TypeAlternativeClause = "|" n:TypeNameIdentifier => @ClauseType(0=n)
TypeAlternativeClause = "|" n:TypeNameIdentifier "of" a:TypeArgument+ => @ClauseTypeWithArgs(0=n, 1=[*a])
ContractTypeArguments = "{" a:TypeArgument* "}" => @NodeContractTypeArguments(type_arguments=[*a])

FullExpression = "let" n:id t:TypeAnnotation? "=" e:FullExpression "in" c:FullExpression => @LocalVariableDeclaration(identifier_name=n, expression=e, type_annotation=~t, containing_expression=c)
FullExpression = "fun" "(" n:id t:TypeAnnotation ")" "=>" e:FullExpression => @FunctionDeclaration(identier_value=n, type_annotation=t, expression=e)
FullExpression = f:VariableIdentifier a:VariableIdentifier+ => @FunctionCall(function_name=f, argument_list=[*a])
FullExpression = a:AtomicExpression => @ExpressionAtomic(0=a)
FullExpression = "builtin" b:id t:ContractTypeArguments? a:builtinargs => @ExpressionBuiltin(b=b, targs=~t, xs=a)
FullExpression = "{" m:MessageEntry (";" n:MessageEntry)* "}" => @Message(0=[m, *n])
FullExpression = "match" v:VariableIdentifier "with" c:PatternMatchExpressionClause* "end" => @Match(match_expression=v, clauses=[*c])
FullExpression = n:MetaIdentifier t:ContractTypeArguments? a:VariableIdentifier* => @ConstructorCall(identifier_name=n, contract_type_arguments=~t, argument_list=[*a])
FullExpression = "tfun" n:tid "=>" e:FullExpression => @TemplateFunction(identifier_name=n, expression=e)
FullExpression = "@" n:VariableIdentifier a:TypeArgument+ => @TApp(identifier_name=n, type_arguments=[*a])

PatternMatchExpressionClause = "|" p:Pattern "=>" e:FullExpression => @NodePatternMatchExpressionClause(pattern=p, expression=e)
Pattern = "_" => @Wildcard
Pattern = n:id => @Binder(0=n)
Pattern = n:MetaIdentifier a:ArgumentPattern* => @Constructor(0=n, 1=[*a])
ArgumentPattern = "_" => @WildcardArgument
ArgumentPattern = n:id => @BinderArgument(0=n)
ArgumentPattern = n:MetaIdentifier => @ConstructorArgument(0=n)
ArgumentPattern = "(" p:Pattern ")" => @PatternArgument(0=p)
MessageEntry = n:VariableIdentifier ":" v:ValueLiteral => @MessageLiteral(0=n, 1=v)
MessageEntry = n:VariableIdentifier ":" v:VariableIdentifier => @MessageVariable(0=n, 1=v)
AtomicExpression = v:VariableIdentifier => @AtomicSid(0=v)
AtomicExpression = v:ValueLiteral => @AtomicLit(0=v)
ValueLiteral = n:TypeNameIdentifier v:num => @LiteralInt(0=n, 1=v)
ValueLiteral = h:hex => @LiteralHex(0=h)
ValueLiteral = s:str => @LiteralString(0=s)
ValueLiteral = "Emp" k:TypeMapKey v:TypeMapValue => @LiteralEmptyMap(0=k, 1=v)

Statement = l:id "<-" r:VariableIdentifier => Load(left_hand_side=l, right_hand_side=r)
Statement = r:RemoteFetchStatement => RemoteFetch(0=r)
Statement = l:id ":=" r:VariableIdentifier => Store(left_hand_side=l, right_hand_side=r)
Statement = l:id "=" r:FullExpression => Bind(left_hand_side=l, right_hand_side=r)
Statement = l:id "<-" "&" t:TypeNameIdentifier a:BlockchainFetchArguments? => ReadFromBC(left_hand_side=l, type_name=t, arguments=~a)
Statement = l:id "<-" r:id k:MapAccess+ => MapGet(left_hand_side=l, keys=[*k], right_hand_side=r)
Statement = l:id "<-" "exists" r:id k:MapAccess+ => MapGetExists(left_hand_side=l, keys=[*k], right_hand_side=r)
Statement = l:id k:MapAccess+ ":=" r:VariableIdentifier => MapUpdate(left_hand_side=l, keys=[*k], right_hand_side=r)
Statement = "delete" l:id k:MapAccess+ => MapUpdateDelete(left_hand_side=l, keys=[*k])
Statement = "accept" => Accept
Statement = "send" n:VariableIdentifier => Send(identifier_name=n)
Statement = "event" n:VariableIdentifier => CreateEvnt(identifier_name=n)
Statement = "throw" n:VariableIdentifier? => Throw(error_variable=~n)
Statement = "match" v:VariableIdentifier "with" c:PatternMatchClause+ "end" => MatchStmt(variable=v, clauses=[*c])
Statement = c:ComponentId a:VariableIdentifier* => CallProc(component_id=c, arguments=[*a])
Statement = "forall" n:VariableIdentifier c:ComponentId => Iterate(identifier_name=n, component_id=c)
StatementBlock = s:Statement (";" t:Statement)* => @NodeStatementBlock(statements=[s, *t])
BlockchainFetchArguments = "(" a:VariableIdentifier+ ")" => NodeBlockchainFetchArguments(arguments=[*a])
ComponentId = n:TypeNameIdentifier => @WithTypeLikeName(0=n)
ComponentId = n:id => @WithRegularId(0=n)
PatternMatchClause = "|" p:Pattern "=>" s:StatementBlock? => @NodePatternMatchClause(pattern_expression=p, statement_block=~s)
RemoteFetchStatement = l:id "<-" "&" a:id "." r:VariableIdentifier => ReadStateMutable(0=l, 1=a, 2=r)
RemoteFetchStatement = l:id "<-" "&" a:spid "." r:spid => ReadStateMutableSpecialId(0=l, 1=a, 2=r)
RemoteFetchStatement = l:id "<-" "&" a:id "." m:id k:MapAccess+ => ReadStateMutableMapAccess(0=l, 1=a, 2=m, 3=[*k])
RemoteFetchStatement = l:id "<-" "&" "exists" a:id "." m:id k:MapAccess+ => ReadStateMutableMapAccessExists(0=l, 1=a, 2=m, 3=[*k])
RemoteFetchStatement = l:id "<-" "&" a:VariableIdentifier "as" t:AddressType => ReadStateMutableCastAddress(0=l, 1=a, 2=t)
MapAccess = "[" n:VariableIdentifier "]" => @NodeMapAccess(identifier_name=n)

ParameterPair = t:TypedIdentifier => @NodeParameterPair(identifier_with_type=t)
ComponentParameters = "(" ")" => @NodeComponentParameters(parameters=[])
ComponentParameters = "(" p:ParameterPair ("," q:ParameterPair)* ")" => @NodeComponentParameters(parameters=[p, *q])
ComponentDefinition = d:TransitionDefinition => @TransitionComponent(0=d)
ComponentDefinition = d:ProcedureDefinition => @ProcedureComponent(0=d)
TransitionDefinition = "transition" n:ComponentId p:ComponentParameters b:ComponentBody => @NodeTransitionDefinition(name=n, parameters=p, body=b)
ProcedureDefinition = "procedure" n:ComponentId p:ComponentParameters b:ComponentBody => @NodeProcedureDefinition(name=n, parameters=p, body=b)
ComponentBody = s:StatementBlock? "end" => @NodeComponentBody(statement_block=~s)
ContractDefinition = "contract" n:TypeNameIdentifier p:ComponentParameters w:WithConstraint? f:ContractField* c:ComponentDefinition* => @NodeContractDefinition(contract_name=n, parameters=p, constraint=~w, fields=[*f], components=[*c])
ContractField = "field" t:TypedIdentifier "=" e:FullExpression => @NodeContractField(typed_identifier=t, right_hand_side=e)
WithConstraint = "with" e:FullExpression "=>" => @NodeWithConstraint(expression=e)
'''
