import json
L='static-xml/src/lib.rs';DE='static-xml/src/de/mod.rs';SER='static-xml/src/ser/mod.rs'
DD='static-xml-derive/src/deserialize.rs';DS='static-xml-derive/src/serialize.rs';DC='static-xml-derive/src/common.rs';DP='static-xml-derive/src/parse.rs';DT='static-xml-derive/src/to_text.rs'
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
p('P01','A successful read has consumed one whole document',
 "When reading a value from a stream or a string succeeds, the whole document has been consumed: exactly one root element was started, everything inside it was consumed however little of it the value's type looked at, and the parser reported the end of the document, with nothing but comments and processing instructions between the root's end and there. Anything else before or after the root makes the read fail.",
 ['inputs','programs'],'every document, every deserializable type, however much of its element it consumes',
 'tests read a few well-formed documents whose types consume everything; truncated documents, trailing content and types that stop early are unbounded in number',
 [DE],[('read calls root, deserialize, end',DE+': read'),('Reader::root / Reader::end',DE)],['static_xml::read','static_xml::de::from_str'])
p('P02','No error met while reading is ever dropped',
 "Every error that the XML parser reports (syntax, encoding or I/O), that a text value's parser returns, or that a type's own deserialization callback returns makes the read in progress fail. Neither the library nor derived code turns such an error into an absent, default or partial value.",
 ['inputs','programs','fault_sequences'],'every error at every point of a read, in the library and in every derived impl',
 'tests inject a couple of parse errors; an I/O fault or a callback error can happen at any event',
 [DE,DD,DP],[('? on every fallible call',DE),('map_err wrapping',DE+': ElementReader::read_to')],['Result of static_xml::read','Result of ElementReader::read_to and read_string','Result of derived ElementVisitor methods'])
p('P03','A read error carries the right element stack, position and cause',
 "The error of a failed read carries the elements that were open where the problem was found, root first, and a position: the parser's own for an XML error, the element's start tag for a bad attribute, the child's start tag for a bad child element, the text's for bad character data. An error that already carries its context is passed on untouched by every enclosing element, and an error raised by a type's own code is kept as the cause.",
 ['inputs','programs'],'every failing read: any nesting depth, any element at which an error arises',
 'tests check one or two error messages; where in which document an error arises is unbounded',
 [DE],[('VisitorError::wrap',DE),('Error::{xml,msg,deserializer}',DE),('deferred stack trimming in ErasedReader::next/return_to_depth',DE)],['static_xml::de::Error::stack','Display and source of static_xml::de::Error'],
 [('Reader.stack','open elements plus possibly the one just ended',DE),('Reader.depth','number of open elements',DE)])
p('P04','Each element reader yields exactly its own element, whatever children do',
 "A type reading an element is given that element's attributes, then its direct child elements and direct character data, in document order, up to and not beyond its own end tag. This holds even if a child is skipped, only partly read, or fails with an error that the type then discards: the next thing seen is what follows that child, and the stack of open elements is again exactly what it was.",
 ['inputs','programs','histories'],'every document and every mix of consuming, ignoring, or abandoning child readers at any depth',
 'tests use derived types, which always consume or always skip; hand-written visitors can stop anywhere',
 [DE],[('return_to_depth after each child',DE+': ElementReader::read_to'),('depth/stack bookkeeping',DE+': ErasedReader for Reader')],['calls made on ElementVisitor','ElementReader::name/depth'],
 [('Reader.depth','number of open elements',DE),('Reader.stack','open elements plus possibly the one just ended',DE)])
p('P05','Element text is all of the element\'s character data, in order',
 "Reading an element as text yields the concatenation, in document order, of all its character data (plain, CDATA or whitespace only), regardless of comments and processing instructions in between, and the empty string if there is none. If the element contains a child element the result is an error, never a partial string.",
 ['inputs'],'every way a document can split character data into pieces',
 'tests have single-piece text; the number and kinds of pieces are unbounded',
 [DE],[('ElementReader::read_string',DE),('ErasedReader::next event mapping',DE)],['ElementReader::read_string','any text type read as an element'])
p('P06','Names are compared by namespace and local name, never by prefix',
 "An element or attribute is identified by its namespace URL and local name only: the prefix used in the document has no influence, a missing namespace equals the empty one, and the prefix xml always denotes the XML namespace. Two names are equal, ordered and hashed consistently on exactly that pair.",
 ['inputs'],'all names: any namespace, prefix and local name',
 'tests use a handful of prefixes; prefixes are chosen by the author of each document',
 [L,DE],[('ExpandedNameRef::from_xml_name',L),('derived Eq/Ord/Hash of ExpandedNameRef',L),('find',DE)],['ElementReader::expanded_name','name given to ElementVisitor::attribute','static_xml::de::find'])
p('P07','Whitespace modes touch only XML whitespace',
 "Whitespace normalization returns the text unchanged in preserve mode. In the other modes the only characters it treats as whitespace are tab, line feed, carriage return and space, and the only character it ever writes is a space. A type that declares a whitespace mode has that mode, and no other, applied to the text before it is parsed.",
 ['inputs','programs'],'every string and every text type that declares a mode',
 'the existing cases are a few ASCII strings; other Unicode whitespace and control characters are not tried',
 [DE,DP],[('normalize',DE),('normalize call emitted by the derive',DP)],['static_xml::de::normalize','derived ParseText::parse'])
p('P08','How often a field may occur is enforced',
 "A field holding a plain or optional value accepts at most one occurrence of its element or attribute: a second one is an error, never a silent replacement. A list field collects every occurrence in document order. An absent field is an error for a plain value, none for an optional one, empty for a list, and the type's default when declared so.",
 ['inputs','programs'],'any number of occurrences in any order, any supported field type',
 'tests try one or two occurrences of some kinds of field',
 [DE,DD],[('DeserializeElementField/DeserializeAttrField impls',DE),('*_present flags',DD)],['derived Deserialize','DeserializeElementField','DeserializeAttrField'])
p('P09','Derived deserializers only produce fully initialized values',
 "A derived deserializer never reports success unless every field of the value has been initialized, never overwrites a field that is already initialized (which would leak it) and never reads or updates one that is not. It accesses every field through a properly aligned pointer, so that no safe program using the derive has undefined behaviour.",
 ['inputs','programs','histories'],'every sequence of attributes and child elements, any error at any of them, every type the derive accepts',
 'tests cannot observe uninitialized memory, and try few orders of events',
 [DD,DE],[('present flags and ptr::write',DD),('RawDeserializeVisitor::finalize contract',DE),('impl_deserialize_via_raw',DE)],['expansion of derive(Deserialize)'],
 [('<field>_present','the field has been written',DD),('initialized','the enum value has been written',DD)])
p('P10','Each declared name reaches its own field or variant, others are left alone',
 "In a derived deserializer, an element or attribute is stored in the field or variant declared for its (possibly renamed and prefixed) expanded name and in no other, whatever other names the type declares. One that no field declares is left to flattened fields, or else ignored without affecting the value; once an enum has its variant, another one of its elements is an error unless that variant's field accepts repetition.",
 ['inputs','programs'],'every declared set of names and every incoming name',
 'tests use a few types with a few names; lookup depends on how all the names of a type sort',
 [DD,DC,DE],[('sorted tables',DC+': ElementStruct::new, ElementEnum::new'),('match arms by table position',DD),('find',DE)],['expansion of derive(Deserialize)'])
p('P11','Derived serializers write every declared part exactly once, under its name',
 "A derived serializer declares all the type's namespaces, writes every attribute field, then every element field in declaration order, then flattened fields, and its text field, each exactly once under its declared expanded name; an optional or list field writes as many as it holds. An enum writes exactly the element of its current variant, and serializing a skipped variant is an error.",
 ['inputs','programs'],'every value of every type the derive accepts',
 'tests serialize a few values of a few types',
 [DS,DC,SER],[('write_attributes / write_children',DS),('SerializeField/SerializeAttr impls',SER)],['expansion of derive(Serialize)'])
p('P12','The derived reader and writer of a type agree on its names',
 "For a type deriving both directions, the set of expanded names under which fields and variants are read is the set under which they are written, field by field. This holds for every combination of renaming, prefix, default namespace and raw identifiers.",
 ['programs'],'every declaration the derives accept',
 'tests cover a few attribute combinations',
 [DD,DS,DC],[('Name::quote_expanded / Name::expanded',DC)],['expansion of derive(Serialize) and derive(Deserialize)'])
p('P13','Derived text types parse exactly the texts they declare',
 "A derived restriction type parses each declared text to its own variant and writes that variant back as the same text; any other text goes to the unknown variant, unchanged, if there is one and is an error otherwise. A union type tries its variants in declaration order, yields the first that parses and fails only if all do; it writes whatever its current variant writes. A type in std mode parses with the type's FromStr and writes its Display text.",
 ['inputs','programs'],'every text, every declaration the derives accept',
 'tests try a few texts on a few types',
 [DP,DT,DC],[('do_restriction/do_union/do_std',DP),('do_restriction/do_union/do_std',DT)],['expansion of derive(ParseText) and derive(ToText)'])
p('P14','Serialization succeeds only if every element was started and finished',
 "If serializing to a writer or a string reports success, then every element that user code began was started and finished, in properly nested order, and the root element was too. Abandoning an element at any stage, at any depth, makes the whole serialization fail even if the code abandoning it reports success and carries on.",
 ['programs','histories'],'every sequence of calls a Serialize impl can make',
 'two tests abandon one element at depth one',
 [SER],[('Drop for ElementBuilder / ElementWriter',SER),('poison',SER+': WrappedWriter')],['static_xml::ser::Serializer::to and to_string'],
 [('WrappedWriter.poison','first error met; sticky',SER)])
p('P15','No error met while serializing is lost',
 "Every error of the output sink or XML emitter makes the serialization fail, also when user code discards it: the first such error is what later attempts to write report, and nothing more is written after it. Errors returned by a type's own serialization code or text conversion are returned to the caller.",
 ['fault_sequences','programs'],'a sink fault at any write; any Serialize impl',
 'no test makes the sink fail',
 [SER,DS],[('ErasedEventWriter for WrappedWriter',SER),('? on every call',SER)],['static_xml::ser::Serializer::to and to_string','ElementBuilder/ElementWriter methods'],
 [('WrappedWriter.poison','first error met; sticky',SER)])
p('P16','An element never gets two attributes of the same expanded name',
 "Adding an attribute whose namespace and local name equal those of one already added to the element is an error and leaves the first in place. Every attribute that was accepted is written, once, in the order added, with its own value.",
 ['inputs','programs','histories'],'every sequence of attributes added to an element',
 'tests add distinct attributes only',
 [SER],[('ElementBuilder::attribute',SER),('ElementBuilder::start',SER)],['ElementBuilder::attribute'])
p('P17','Written names resolve to the requested namespaces',
 "In serializer output each prefix in scope at an element stands for one namespace, and every element and attribute name is written with a prefix that stands there for the (non-empty) namespace the caller asked for. A namespaced attribute always has a non-empty prefix; a name in no namespace has none, and for elements only where no default namespace applies; mappings inherited from the parent never displace ones the element itself needs.",
 ['inputs','programs'],'every combination of requested prefixes and URLs at every level of nesting',
 'tests try four combinations',
 [SER],[('NamespacesBuilder::{insert,attribute,finalize}',SER),('Namespaces::{child,resolve_element,resolve_attribute}',SER)],['ElementBuilder::{namespace,attribute,start}','ElementWriter::element'],
 [('assigned_prefix','prefix chosen for a URL on this element',SER)])
p('P18','Unwritable names give an error, not a panic or a wrong document',
 "Serializing an element or attribute in a namespace that was not declared, or an element in no namespace beneath a default namespace, returns an error. It neither panics nor lets the serialization succeed, even if the error is discarded by the code that met it.",
 ['inputs','programs'],'every name and every set of declared namespaces',
 'no test uses an undeclared namespace',
 [SER],[('Namespaces::resolve_element/resolve_attribute',SER)],['ElementBuilder::start'])
p('P19','Reading never panics',
 "Reading any input into any type whose own code does not panic returns a value or an error; the library and derived code do not panic, also in builds with debug assertions and overflow checks. Skipping unread content takes stack space independent of how deep it nests.",
 ['inputs','programs'],'every input, well-formed or not, and every visitor',
 'tests read a few documents; panics hide behind unusual event sequences',
 [DE,DD],[('invariants on depth and stack',DE)],['static_xml::read','ElementReader methods','derived Deserialize'])
p('P20','Derive misuse is rejected at compile time',
 "Declarations that the derives cannot implement faithfully do not compile: unknown or conflicting attributes, undefined prefixes, a prefix mapped twice, several text fields or unknown variants, tuple structs, ill-shaped variants, missing or unknown modes, and packed structs for deserialization. The nearest well-formed declaration does compile.",
 ['programs'],'every declaration of each listed kind',
 'one compile-fail test exists, for one kind',
 [DC,DD,DP,DT],[('Errors accumulator',DC)],['compilation of types using the derives'])
p('P21','The API makes misuse of readers, builders and writers a type error',
 "Safe code cannot read an element twice, cannot keep an element reader beyond its callback or use its parent's while it is alive, cannot add attributes or namespaces once an element is started, cannot write content before start or after finish, and cannot write to a parent while a child element is open. Such programs do not compile.",
 ['programs'],'every client program of each listed kind',
 'tests only contain programs that compile',
 [DE,SER],[('self-consuming methods and lifetimes',DE+': ElementReader'),('self-consuming methods and lifetimes',SER+': ElementBuilder, ElementWriter')],['public signatures of ElementReader, ElementBuilder, ElementWriter'])
p('P22','Built-in text types accept and write what XML Schema defines',
 "Numbers and booleans are read after removing leading and trailing XML whitespace (tab, line feed, carriage return, space) and nothing else; a boolean is exactly true, 1, false or 0 with its meaning, and a number is what the type's own parser accepts, with its error passed on. Strings are read unchanged. Each type is written by its standard textual form, strings verbatim.",
 ['inputs'],'every text and every value of the built-in types',
 'tests try a few values of some of the types',
 [DE,SER],[('ParseText for bool, text_for_num, String',DE),('text_from_display, ToText for str/String',SER)],['ParseText::parse and ToText::to_text of the built-in types'])
p('P23','Serializer options and content reach the emitter as given',
 "Text and attribute values are written only through the XML emitter with escaping on, so that no content can become markup. Indentation is off and the document declaration on unless the caller says otherwise, each setting changes only itself, and both entry points behave alike.",
 ['inputs','configurations'],'all content and all settings',
 'tests use the default settings and little content that needs escaping',
 [SER],[('Serializer::to',SER),('serialize / serialize_with_name',SER)],['static_xml::ser::Serializer'])
p('P24','Flattened fields are offered what is left, in declaration order',
 "Attributes, elements and character data that a struct's own fields do not take are offered to its flattened fields in declaration order, with the same content, until one takes them or fails; none is offered to a later field after that, none is lost or offered twice, and what all decline is handed back unchanged.",
 ['inputs','programs'],'any number and kind of flattened fields, any item',
 'tests have one flattened field',
 [DE,DD],[('delegate_element/delegate_attribute/delegate_characters',DE),('fallthrough arms',DD)],['derived ElementVisitor of a struct with flattened fields'])
json_lines='\n'.join(json.dumps(x) for x in P)+'\n'
open('/verif/properties.jsonl','w').write(json_lines)
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
