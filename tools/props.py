TECH = ('abstract interpretation (dataflow over symbolic documents) of the '
        'parsed sources')
NOTE = ('Sound for the analysed constructs under the models of library calls '
        'in pyabs/natives.py: unknown predicates take both branches and are '
        'joined, text and numbers of documents are fully symbolic. Mappings '
        'and lists are analysed with up to three generic, pairwise distinct '
        'entries and finite nesting; the shapes covered are listed in '
        'DESIGN.md. Nothing of the project is executed.')
NOT_APPLICABLE = {}

CONV = '@v2_0/scanner/upgrade/converters.py'
PROPS = []


def P(id, title, statement, forall, why, files, mech, over=('inputs', ), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      forall=forall, why=why, files=files, mech=mech,
                      over=list(over), **kw))


P('C24', 'Schema keywords survive the upgrade from 2.0 to 3.0.0',
  'Upgrading a Swagger 2.0 schema to OpenAPI 3.0.0 keeps every schema keyword '
  'it sets, with an unchanged value (zero and false included), and adds none, '
  'at every nesting level: items, properties, allOf, additionalProperties '
  '(a schema or false; true, which is the default, may be left out), xml and '
  'external documentation. '
  'The only rewrites are that a discriminator name becomes a discriminator '
  'object carrying that property name, and type "file" becomes a string in '
  'binary format. '
  'A schema that is a reference upgrades to exactly that reference.',
  'every schema object of every Swagger 2.0 document, any keyword subset, '
  'value and nesting',
  'Tests convert a handful of literal schemas; dropping, renaming or '
  'truth-testing one of about 25 keywords at one nesting level is only seen '
  'for the keyword/level pairs they sample.',
  [CONV], [('schema conversion', CONV)])

P('C25', 'Parameters become equivalent 3.0.0 parameters or request bodies',
  'Upgrading a 2.0 operation, path or document turns each query, header and '
  'path parameter into a 3.0.0 parameter with the same name, location, '
  'description, required and allowEmptyValue, whose schema carries exactly the type '
  'keywords the parameter had, in the same order among the other parameters. '
  'A body parameter becomes a request body with its description and required '
  'flag, holding its schema once per consumed media type (application/json when '
  'none), and all form parameters become properties of one schema per media '
  'type (the consumed ones that can carry forms or files, by default '
  'multipart/form-data for files and application/x-www-form-urlencoded '
  'otherwise), listed as required when they were. '
  'Fields given on the path are available to each operation of it, an operation '
  'with two bodies or a repeated form field is refused.',
  'every parameter list of every Swagger 2.0 document and every consumes '
  'setting at operation or document level',
  'Tests convert a few literal operations; the product of locations, type '
  'keywords, media types, inheritance levels and reference/inline forms is '
  'not sampled.',
  [CONV], [('parameter conversion', CONV), ('merging of bodies', CONV)])

P('C26', 'collectionFormat becomes the equivalent style and explode',
  'In the upgrade from 2.0 to 3.0.0 every array parameter, form field and '
  'response header keeps its serialization: csv (also when not specified) '
  'becomes form without explode in queries and forms and simple elsewhere, multi '
  'becomes form with explode, ssv and pipes become space and pipe delimited. '
  'ssv and pipes are refused where 3.0.0 cannot express them: outside queries '
  'and forms, and for what is no array.',
  'every array-valued parameter, form field and header of every 2.0 document, '
  'all locations and formats',
  'Tests contain few formats per location; a wrong mapping for one '
  '(location, format) pair passes them.',
  [CONV], [('style mapping', CONV)])

P('C27', 'Responses keep description, headers and schema per media type',
  'Upgrading responses from 2.0 to 3.0.0 keeps every status code and '
  'description, turns each header into one with a schema of the same type '
  'keywords and the same description, and offers the response schema under '
  'every produced media type, those of the operation taking precedence over '
  'those of the document. '
  'File responses become binary strings, references to shared responses stay '
  'the same reference unless that response has a schema (then it is inlined, '
  'as its media types depend on the operation), and shared responses of the '
  'document are converted the same way.',
  'every response of every Swagger 2.0 document and every produces setting at '
  'operation or document level',
  'Tests convert a few literal responses; combinations of media types, '
  'headers, inheritance and references are not sampled.',
  [CONV], [('response conversion', CONV)])

P('C28', 'Metadata, security, servers and paths survive the upgrade to 3.0.0',
  'Upgrading a 2.0 document to 3.0.0 keeps info, contact, license, tags, '
  'external documentation, operation summary, description, identifier, tags, '
  'deprecation and every security requirement (empty ones included) unchanged, '
  'and keeps every path and method under the same key. '
  'Host, basePath and scheme become one server url, schemes of an operation '
  'one server each at the same host and basePath, and shared definitions, '
  'parameters, responses and security schemes appear under the same names in '
  'components. '
  'Security schemes keep their meaning: basic becomes http basic, the 2.0 '
  'OAuth2 flows become implicit, password, clientCredentials and '
  'authorizationCode with their urls and scopes, and API keys keep name and '
  'location.',
  'every Swagger 2.0 document',
  'Tests compare a few sample documents in which most of these members are '
  'absent or empty.',
  [CONV], [('document conversion', CONV)])

P('C29', 'The upgrade to 3.0.0 leaves the 2.0 document untouched',
  'Upgrading any part of a 2.0 document to 3.0.0 changes neither the loaded '
  '2.0 objects nor the raw document they were read from, so upgrading the same '
  'part again gives an equal result and does not alter the earlier one. '
  'Operations below a path that declares form fields or a body each get a '
  'request body of their own that shares no structure with its siblings.',
  'every Swagger 2.0 document and every sequence of upgrades of its parts',
  'Tests upgrade each sample once and do not look at the source afterwards; '
  'aliasing only shows up in a second upgrade or in a sibling operation.',
  [CONV], [('copying of shared sub-documents', CONV)], ('inputs', 'histories'))

OBJS = ['@v1_2/objects.py', '@v2_0/objects.py', '@v3_0_0/objects.py']
SPEC = ['%spec/obj.py', '%spec/attr.py']

P('C01', 'Every member a specification defines can be read under its name',
  'An object built from a part of a Swagger 1.2, 2.0 or OpenAPI 3.0.0 '
  'document exposes every member that specification defines for that kind of '
  'object under its JSON name: plain values (0, false and "" included) as '
  'they are, nested members as objects of the class the specification names, '
  'at every nesting level and inside lists and mappings. '
  'Members that are absent read as their default, None when there is none '
  '(those that are required may be refused instead), '
  'and a member that may be a reference gives a reference object exactly when '
  'it holds "$ref".',
  'every document of the three supported versions, any member subset, any '
  'value and nesting',
  'Tests load sample documents that use a fraction of the members; a missing, '
  'misspelled or wrongly typed member shows only when a document has it.',
  OBJS + SPEC, [('field tables of the object classes', OBJS[2])])

P('C02', 'Snake-case aliases are the members they are named after',
  'A member with a name in camel case, such as "operationId" or "requestBody" '
  '(or one that collides with python: in, not, enum, $ref ...), can also be '
  'read under the snake-case alias the object class declares for it, giving '
  'the same value, object or default as the JSON name. '
  'A reference rewritten, or an object assigned, under either name shows under '
  'both.',
  'every object class of the three versions, every alias and value',
  'Tests read a handful of aliases; each of about 150 is a separate '
  'declaration that can name the wrong member.',
  OBJS + SPEC, [('renamed members', OBJS[2])])

P('C03', 'Dumping an object gives back the document it was loaded from',
  'dump() of an object loaded from a 1.2, 2.0 or 3.0.0 document gives a '
  'document with exactly the members, values, list orders and mapping keys of '
  'the one it was loaded from, at every nesting level, false and zero values '
  'included (empty containers and null members need not be kept). '
  'Dumping neither changes the loaded document nor the result of a later '
  'dump.',
  'every document of the three supported versions without null members, any '
  'member subset, value and nesting',
  'Tests dump a few sample documents; a member whose class or container is '
  'declared wrongly is lost only in documents that use it.',
  OBJS + SPEC, [('dumping', '%spec/obj.py')])

P('C04', 'Every part of a document knows its pointer and its parent',
  'Each object, list and mapping inside a loaded document reports as its path '
  'the path of its holder followed by its member name, index or key, encoded '
  'as JSON pointer token, and as its parent the object, list or mapping '
  'holding it.',
  'every part of every document of the three versions, keys being any text',
  'Tests look at the paths of a few objects, whose keys rarely need '
  'encoding.',
  OBJS + SPEC, [('child construction', '%spec/obj.py')])

P('C05', 'The children of an object are listed completely',
  'get_children() of an object lists each object directly below it (across '
  'lists and mappings, which are not listed themselves) exactly once, under '
  'the encoded JSON pointer leading to it from there, and no plain values. '
  'So a traversal that starts at the root reaches every object of the '
  'document.',
  'every object of every document of the three versions, keys being any text',
  'Tests traverse sample documents and look for some objects; one that is '
  'not listed is silently neither resolved nor converted.',
  OBJS + SPEC, [('child listing', '%spec/obj.py')])

P('C06', 'Objects compare equal exactly when their documents agree',
  'compare() of two objects of the same class reports them as equal when they '
  'were loaded from equal documents (their members in any order), and as '
  'different when a value, a member, a mapping key or the number of objects in '
  'a list differs at any nesting level.',
  'every pair of documents that are equal or differ in one place, all object '
  'classes',
  'Tests compare few objects with few differences; most members are never '
  'altered.',
  OBJS + SPEC, [('comparison', '%spec/obj.py')])

P('C10', 'JSON pointers: composing and splitting are inverse',
  'Composing a JSON pointer encodes "~" and "/" of each token exactly once and '
  'appends the tokens to the given base, and splitting it gives back the same '
  'tokens, whatever text they contain. '
  'Splitting a JSON reference gives the normalized document url and the '
  'fragment as pointer, "#" when there is none.',
  'every token text and sequence of tokens, every base and url',
  'Tests split and compose a few literal pointers; an encoding that is wrong '
  'for "~1", repeated or adjacent characters passes them.',
  ['pyopenapi/utils.py'], [('pointer codec', 'pyopenapi/utils.py')])

P('C11', 'References are made absolute against the document they are in',
  'Normalizing a "$ref" found in a document gives an absolute reference: a '
  'bare pointer points into that document, a relative name (with "." and ".." '
  'segments) is looked up from the folder of the document, a path starting '
  'with "/" from the root of its host, an absolute url is kept; the pointer '
  'part is kept literally in each case. '
  'The helpers for folders (url_dirname), joining (url_join) and file paths '
  '(normalize_url) follow the same rules, and a reference without pointer '
  'denotes the whole document.',
  'every reference and document url (http, https, file)',
  'Tests normalize some literal references; host, port, nesting, extension '
  'and segment combinations are not sampled.',
  ['pyopenapi/utils.py', '@v2_0/scanner/norm_ref.py',
   '@v3_0_0/scanner/norm_ref.py'],
  [('reference normalization', 'pyopenapi/utils.py')])

RES = ['@v2_0/scanner/resolve.py', '@v3_0_0/scanner/resolve.py', '%base.py',
       '%store.py', '%spec/obj.py', 'pyopenapi/utils.py']

P('C07', 'Path items are merged with the path items they refer to',
  'A path item that refers to another one gets, after loading, a merged view '
  '(final()) that has each of its own operations, parameters and servers, and '
  'those it lacks from the referred path items, the nearest one in the chain '
  'winning, across documents and versions. '
  'The path items of the chain themselves keep exactly what they had, and a '
  'path item without reference is its own final view.',
  'every chain of path items, any distribution of members over the chain',
  'Tests merge a sample file with few members; precedence and cascading of '
  'the other members are never observed.',
  ['@v2_0/scanner/merge.py', '@v3_0_0/scanner/merge.py', '%spec/obj.py',
   'pyopenapi/utils.py'], [('merging', '%spec/obj.py')])

P('C15', 'Every reference of a loaded document leads to the object it names',
  'After loading, each reference of a document (schemas, path items, '
  'parameters, responses, headers, examples, links, callbacks, request bodies '
  'and security schemes, at every place of the object model that accepts one) '
  'leads to the object its normalized reference names: in the same document, '
  'in another one, or a whole document, whatever the name contains, and '
  'following it repeatedly through further references ends at a real object. '
  'The target is the very object that the store of the application has for '
  'that reference, and "$ref" of a local reference keeps its text.',
  'every reference place of Swagger 2.0 and OpenAPI 3.0.0 documents, any key',
  'Tests load sample files and follow some references; each object class and '
  'member has its own lines in the resolvers.',
  RES, [('reference resolution', '%base.py')])

P('C16', 'Reference loops end with an error or a usable object, never hang',
  'Loading documents whose references form a loop (to themselves, to each '
  'other, through other documents) always finishes; following such references '
  'with deref() raises a cycle error instead of looping or giving a wrong '
  'object, and schemas that contain themselves through a member load and '
  'resolve to themselves. '
  'The guard reports exactly the objects that were seen before.',
  'every loop of up to three references through any of two documents, each '
  'referable class',
  'Tests have one or two loops of one shape; a loop that passes another '
  'document or enters from outside only shows as endless recursion.',
  RES, [('loop guard', 'pyopenapi/utils.py')], over=('inputs', 'histories'))

P('C17', 'References that lead nowhere make loading fail',
  'A reference to a missing name, section, list entry or document, at any '
  'place of a document that accepts references, makes loading fail with an '
  'exception; no application with an unresolved reference is handed out. '
  'Documents of unsupported versions, and requests for unsupported target '
  'versions, are refused as well.',
  'every reference place of both versions and every kind of missing target',
  'Tests check few kinds of missing targets at one place; a place whose '
  'reference is silently left unresolved passes them.',
  RES, [('reference resolution', '%base.py')])

P('C20', 'References still lead to their targets after upgrading to 3.0.0',
  'Upgrading a Swagger 2.0 document to OpenAPI 3.0.0 rewrites each reference '
  'to name the place where the upgraded target is now, in the same document, '
  'in another one or in a plain fragment file, and it leads to the 3.0.0 '
  'object upgraded from its old target. '
  'Where the upgrade copies a shared body or response to its users, the '
  'references in the copy lead to the same targets as before. '
  'Relocating an old JSON pointer gives the place of the upgraded object.',
  'every reference place, shared object kind and key of 2.0 documents',
  'Tests upgrade a few files; wrong relocation for a name containing "/", a '
  'name that prefixes another, or another document goes unseen.',
  [CONV, '@v3_0_0/main.py', '@v3_0_0/scanner/resolve.py', '%store.py',
   '%base.py'], [('relocation', '%store.py')])

P('C18', 'The object cache finds what was stored, by document, pointer and version',
  'What was stored in the object cache for a document url, JSON pointer and '
  'version is found under exactly that url, pointer and version, and so is '
  'each part of it under the pointer that leads there; a pointer that merely '
  'begins with the same text ("#/a" and "#/ab"), another document or another '
  'version finds nothing. '
  'A later object for the same place replaces the earlier one, and of a range '
  'of versions the newest one stored is found, where it was moved to. '
  'Objects below a pointer are listed under their pointers relative to it, '
  'each exactly when that pointer is a whole-token prefix of theirs.',
  'every history of stored objects, urls, pointers (any token text) and '
  'versions',
  'Tests store a few objects under unrelated pointers; names that begin with '
  'one another, nested objects and several versions are not sampled.',
  ['%store.py'], [('object cache', '%store.py')], ('inputs', 'histories'))

P('C19', 'Relocation moves each pointer to where its object went',
  'After a document was upgraded, relocating one of its old JSON pointers '
  'replaces the longest leading sequence of whole tokens that the recorded '
  'moves name by the place they give and keeps all remaining tokens as they '
  'were; a pointer none of the moves applies to stays the same. '
  'Moves of several steps are applied version by version up to the asked one, '
  'moves of one document never affect another, and unknown versions are '
  'refused.',
  'every set of recorded moves, every pointer (any token text) and sequence of '
  'versions',
  'Tests relocate some pointers with maps of simple names; prefixes of names, '
  'encoded tokens, nested moves and several steps are not sampled.',
  ['%store.py'], [('relocation', '%store.py')], ('inputs', 'histories'))

P('C21', 'Documents are upgraded step by step, and every step is kept',
  'Loading a document upgrades it from its own version through each supported '
  'version in turn up to the asked one, starting each step from the result of '
  'the previous one. '
  'Each step result is prepared exactly once before it is used, what the '
  'preparation returns replaces it, and it is cached under the url and '
  'version; loading or resolving the same place again gives the same object '
  'without fetching or upgrading again. '
  'An object already at the asked version is returned as it is, and the '
  'application reports the version its root document had and the one it has '
  'been upgraded to, whatever parts of other documents are loaded.',
  'every document version and target version, every history of loads and '
  'resolutions',
  'Tests load each sample once to the final version; intermediate results, '
  'repeated loading and preparation that replaces objects are not sampled.',
  ['%base.py', '%store.py', '@v1_2/main.py', '@v2_0/main.py',
   '@v3_0_0/main.py'], [('version stepping', '%base.py')],
  ('inputs', 'histories'))

P('C22', 'Every document is fetched once, from where its url leads',
  'Resolving references fetches each document at most once, however many '
  'references into it there are, from the url (after the load hook of the '
  'application rewrote it, when there is one) without its pointer, and then '
  'follows the pointer token by token, decoding each, through mappings and '
  'lists. '
  'A getter given for a reference is used instead of the default one.',
  'every sequence of references and documents, any pointer tokens, with and '
  'without load hook',
  'Tests fetch few documents, once each; the number of fetches, hooks with '
  'pointers and encoded tokens are not observed.',
  ['%resolve.py', '%getter.py'], [('fetching', '%resolve.py')],
  ('inputs', 'histories'))

P('C23', 'Documents are read as JSON or YAML from files and urls alike',
  'A document in a file, a folder (its swagger.json, .yaml or .yml) or at an '
  'http(s) url is read as UTF-8 and parsed as JSON when it starts with "{" and '
  'as YAML otherwise, and gives the same mapping either way: all keys are text, '
  'at every depth, and YAML cannot create anything but plain data. '
  'Files and connections are closed again, also when reading fails, and what '
  'is neither text nor a mapping is refused.',
  'every url and path (any characters, encoded or not), both formats, '
  'every content',
  'Tests read sample files in ASCII from simple paths; encodings, escaped '
  'paths, non-text keys and failures are not sampled.',
  ['%getter.py', '@v2_0/scanner/yaml.py', 'pyopenapi/utils.py'],
  [('getters', '%getter.py')])

UP12 = '@v1_2/scanner/upgrade.py'
P('C30', 'Swagger 1.2 data types and parameters keep their meaning in 2.0',
  'Upgrading a Swagger 1.2 document to 2.0 gives each body, model property and '
  'operation result the type, format, default, enum, uniqueItems and items it '
  'had (0, false and "" included), limits as integers or numbers of the same '
  'value without loss of precision, and a type or "$ref" that names a model '
  'becomes a reference to the definition of that model in the same resource. '
  'Every other parameter keeps its name, place (form becomes formData), '
  'description, required and type keywords and its position; arrays and '
  'allowMultiple parameters become csv arrays, the latter with format, enum '
  'and limits on their items. '
  'References in parameters that are no body, items of other than primitive '
  'types, and limits of types other than integer and number are refused.',
  'every data type and parameter of every Swagger 1.2 document, any resource '
  'and model name',
  'Tests upgrade a few sample documents; most of the product of places, types '
  'and keywords, and names with special characters, do not occur in them.',
  [UP12], [('data type conversion', UP12)])

P('C31', 'Swagger 1.2 operations, models and metadata keep their meaning in 2.0',
  'Upgrading a Swagger 1.2 document to 2.0 reads the declaration of each listed '
  'resource from its path below the listing, and keeps each operation under its base '
  'path followed by its path and its method, with summary, notes (as '
  'description), nickname (as operationId), deprecated flag and resource (as '
  'tag), and with the media types and authorizations of the operation, or else '
  'of its resource; the host is moved out of the paths when all share it. '
  'Each model becomes a definition named after resource and model with its '
  'properties, required, discriminator and description, and each sub type '
  'gets one allOf reference to its super type, in whichever order they come. '
  'Title, description, version, terms, contact, license, one tag per resource '
  'and security schemes (basic, API key, implicit and authorization code '
  'OAuth2 with urls and scopes) are kept.',
  'every Swagger 1.2 resource listing with any number of resources, any '
  'subset of members and any names',
  'Tests upgrade a few sample documents of one resource root; several '
  'resources, inheritance between operation and resource, and most members '
  'are sampled once or never.',
  [UP12, '%base.py', '@v1_2/objects.py'], [('document conversion', UP12)])

P('C08', 'Parts loaded before their document are used in it',
  'When a part of a 2.0 or 3.0.0 document was loaded on its own before (by its '
  'pointer, or because another document refers to it), loading the whole '
  'document puts that very object at its place, below its holder, so that '
  'references, the document and the object cache agree on one object. '
  'All other parts are as the document says. This is for names without "/" '
  'and "~".',
  'every place of 2.0 and 3.0.0 documents that holds an object, any number of '
  'parts loaded before',
  'Tests load a few parts first; an object that is silently built a second '
  'time looks the same until references are compared by identity.',
  ['%spec/obj.py', '%base.py', '%store.py'],
  [('reuse of loaded parts', '%spec/obj.py')], ('inputs', 'histories'))

P('C09', 'The tokens of a pointer lead to the part it names',
  'Resolving a sequence of decoded JSON pointer tokens from any object, list or '
  'mapping of a loaded document gives the member, element or entry they name, '
  'the same one that reading members, indices and keys one by one gives, '
  'whatever text the keys are; no tokens give the object itself. '
  'Tokens that name a missing entry or element, or something the object does '
  'not have, raise an error.',
  'every part of every document of the three versions, keys being any text',
  'Tests resolve a few pointers of sample documents; most members and nested '
  'containers are never reached this way.',
  ['%spec/obj.py'] + OBJS, [('navigation', '%spec/obj.py')])

P('C14', 'Traversals visit every object once and call its handlers',
  'Scanning visits the given object and every object below it exactly once, '
  'with the JSON pointer leading there, and nothing below objects of a class '
  'given as leaf. '
  'Each visited object is handed, in order of registration, to exactly the '
  'handlers registered for its class by each of the routes, and each result to '
  'the result handler of that route; what one dispatcher registers is '
  'unknown to all others, those derived from it included. '
  'Scanning nothing, or registering for what is no object class, is refused.',
  'every document of the three versions, every set of routes, classes and '
  'leaves',
  'Tests count some objects of sample documents; an object skipped or visited '
  'twice, or handlers leaking between dispatchers, show only for other shapes '
  'and combinations of routes.',
  ['%scan.py', '%spec/obj.py'], [('traversal and dispatch', '%scan.py')])

P('C32', 'Applications do not influence each other',
  'What an application loads, upgrades and resolves depends only on its own '
  'documents: another application in the same process, with other documents '
  'under the same urls, of any version, loaded before, after or in between, '
  'also one that failed to load, changes nothing. '
  'Two applications share no object, document or cache, and nothing that '
  'outlives an application refers to its objects.',
  'every pair of applications, versions and orders of loading',
  'Tests create applications with different urls and look at one at a time; '
  'state shared by accident (class attributes, default arguments, caches by '
  'url) needs two applications with the same urls to show.',
  ['%base.py', '%store.py', '%resolve.py', '%getter.py', '%spec/obj.py',
   '%scan.py', UP12, CONV], [('application state', '%base.py')],
  ('inputs', 'histories'))

P('C33', 'Scoped names are composed, split and found as a whole',
  'Composing a scope and a name joins them by the separator (either may be '
  'missing), and splitting gives the names again. '
  'A scoped mapping finds an entry by its full name, given as text or as '
  'separate names, or else by its last names when exactly one entry ends with '
  'these as whole names; when several do it raises ValueError, and when none '
  'does KeyError.',
  'every set of names and separator',
  'Tests look up a few literal names; names that end with one another are '
  'sampled in one combination.',
  ['pyopenapi/utils.py'], [('scoped names', 'pyopenapi/utils.py')])

P('C34', 'Comparing two documents finds every difference and nothing else',
  'compare_container() of two plain documents gives no entry when they are '
  'equal, mappings and lists of texts or numbers taken in any order, and '
  'otherwise one entry for each place where they differ, under its JSON '
  'pointer (names encoded, without leading slash): the lengths of two lists, '
  'the names of the two types when the first is a mapping or list and the '
  'second is none, '
  '(pointer, None, None) for a key that only one of them has, and else the two '
  'values. `include` restricts the keys that are compared at every level to '
  'those named, and `exclude` leaves out those named, also when they are '
  'included. This is for non-empty keys, and lists whose items are all of '
  'one kind (texts, integers, or mappings, which are compared in their order).',
  'every pair of plain documents, include and exclude',
  'Tests rely on this function to tell whether conversions are right, and '
  'compare four literal dictionaries; differences it overlooks make other '
  'tests pass.',
  ['pyopenapi/utils.py'], [('compare_container', 'pyopenapi/utils.py')])
