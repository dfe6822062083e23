#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the entries stay readable)."""
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
I='include/osmium/'
p('C01','Fixed-point coordinates convert to degrees and back without loss',
 'Every coordinate the library stores (a 32-bit count of 1e-7 degree units) comes back unchanged when it is read out in degrees and set again from those degrees, through every constructor, setter and getter of positions, nodes and way nodes, each axis feeding only its own coordinate. Setting a coordinate from degrees stores the nearest multiple of 1e-7 degree. A position counts as defined exactly if neither of its coordinates is the reserved invalid value, and two positions are equal exactly if both coordinates are.',
 ['inputs'],'all 2^32 stored coordinates, all pairs of positions, all degrees in the representable range',
 'Tests construct a handful of positions; an off-by-one-unit rounding error shows only for some of the 2^32 values and would silently shift coordinates on every read/write cycle.',
 [I+'osm/position.hpp',I+'osm/node.hpp',I+'osm/way_node.hpp'],[('double_to_fix / fix_to_double',I+'osm/position.hpp'),('Position accessors',I+'osm/position.hpp')],
 [('m_x, m_y','coordinate * 10^7',I+'osm/position.hpp')],['Position::x/y/lon/lat/defined','Node::lon/lat/position','WayNode::position/has_position'])
p('C02','Orderings of positions, segments and objects are strict weak orders',
 'The less-than relations on positions, undirected segments, nodes, ways and relations (also through shared pointers) are irreflexive, asymmetric, transitive and have a transitive incomparability relation for all values, so sorting and ordered containers are well defined on any data. Objects of one type are ordered first by the absolute value of their id, and for the same id by increasing version; positions by x, then y. An undirected segment has the same end points in the same order whichever way round it was given, the smaller first.',
 ['inputs'],'all triples of objects with arbitrary 64-bit ids (positive and negative) and versions; all quadruples of positions',
 'Tests compare a few fixed objects; a violated ordering axiom needs particular triples (for instance ids x, -x and several versions) and shows up as data lost from a set or as undefined behaviour of a sort.',
 [I+'osm/position.hpp',I+'osm/undirected_segment.hpp',I+'osm/segment.hpp',I+'osm/node.hpp',I+'osm/way.hpp',I+'osm/relation.hpp'],
 [('operator<',I+'osm/node.hpp'),('operator<',I+'osm/way.hpp'),('operator<',I+'osm/relation.hpp'),('operator<',I+'osm/position.hpp'),('UndirectedSegment constructor and operator<',I+'osm/undirected_segment.hpp')])
p('C03','A bounding box is exactly the min/max box of the positions it was extended with',
 'After extending an empty bounding box with any sequence of positions, it is defined exactly if at least one of them was defined, and then its corners are the minimum and maximum x and y over the defined positions of the sequence, in whatever order they came. Undefined positions never change it. The bounding-box handler reports exactly the box of all node positions it saw.',
 ['inputs','histories'],'every finite sequence of defined and undefined positions',
 'Tests extend a box with two or three positions; order dependence and the influence of undefined positions (deleted nodes in history files) need all sequences.',
 [I+'osm/bounds.hpp',I+'handler/find_bbox.hpp'],[('Bounds::extend',I+'osm/bounds.hpp'),('FindBbox::node/final',I+'handler/find_bbox.hpp')],
 [('m_bottom_left, m_top_right','corners',I+'osm/bounds.hpp')],['Bounds::bottom_left/top_right/defined','Meta::bounds after FindBbox::final'])
p('C04','Id-indexed stores return, for every id, the value last stored under it',
 'After any sequence of stores, every id-indexed storage class (fixed array, anonymous mmap, file mmap, sparse table, STL map, sorted vector) returns for every id that was stored the value stored last under it, whatever other ids were stored in between and however often the store had to grow; growing never loses a stored value, and a failed growth is reported by an exception and loses nothing either. For an id never stored, the sparse table and the vector return the undefined position, the anonymous mmap inside its range returns zero and the STL map throws; the size reported by the growing stores covers every stored id. Limits: the fixed array takes ids below its size, the vector ids stored in strictly ascending order, and the mmap and sparse stores ids small enough that sizes in bytes fit 64 bits.',
 ['inputs','histories','fault_sequences'],'all histories of set() calls over all 64-bit ids a store supports, including every growth step and failure of the underlying memory or file calls',
 'No test touches these classes; a wrong growth condition, element index or lower bound affects only particular ids after a particular history.',
 [I+'storage/byid.hpp',I+'storage/byid/fixed_array.hpp',I+'storage/byid/mmap_anon.hpp',I+'storage/byid/mmap_file.hpp',I+'storage/byid/sparse_table.hpp',I+'storage/byid/stl_map.hpp',I+'storage/byid/vector.hpp'],
 [('set / operator[] of each class',I+'storage/byid/')],[('m_size, m_items','capacity and backing memory',I+'storage/byid/mmap_anon.hpp')],['set(id, value); operator[](id); size()'])
p('C05','Way nodes get exactly the location stored for the node they refer to',
 'When a node is handed to the way-coordinates handler its location is stored under its id, ids below zero in the separate negative-id store under the negated id. When a way is handed over, every one of its way nodes afterwards carries the location the store belonging to the sign of its reference holds for that reference, and nothing else about the way (references, their order and number) changes.',
 ['inputs','histories'],'all nodes, all ways of any length, all ids of either sign',
 'Only an example program uses this handler; mixing the two stores up, or skipping the last node of a way, needs particular ids or lengths.',
 [I+'handler/coordinates_for_ways.hpp'],[('CoordinatesForWays::node/way/get_node_pos',I+'handler/coordinates_for_ways.hpp')],(),['WayNode::position after CoordinatesForWays::way'])
p('C06','Tag filters answer with the first matching rule, else their default',
 'For every list of rules and every tag, a key filter, a key/value filter and a regex filter return the result of the first rule added that matches the tag, and the default result if none matches. A key rule matches equal keys; a key/value rule additionally needs an equal value unless it was added without a value or with an empty one; a regex rule needs its key expression to match the whole key and, unless it was added without a value, its value expression to match the whole value. Rules added later never change the answer of an earlier matching rule.',
 ['inputs','histories'],'all rule lists of any length and all tags',
 'Tests try a few rules; first-match semantics over arbitrary rule lists, wildcards in any position and duplicate keys cannot be enumerated.',
 [I+'tags/key_filter.hpp',I+'tags/key_value_filter.hpp',I+'tags/regex_filter.hpp',I+'utils/filter_and_accumulate.hpp'],
 [('KeyFilter::operator()',I+'tags/key_filter.hpp'),('KeyValueFilter::operator()',I+'tags/key_value_filter.hpp'),('RegexFilter::operator()',I+'tags/regex_filter.hpp')])
p('C07','Tag lists keep tags in order and look up the first tag with a key',
 'A tag list contains exactly the tags added since it was last cleared, in the order they were added, with keys and values unchanged, and copying it copies all of them. Looking up a key returns the value of the first tag with that key, or null exactly if no tag has that key.',
 ['inputs','histories'],'all tag lists of any length and all keys',
 'Tests add two or three tags; the claim is about every length, duplicate keys and every position of the match.',
 [I+'osm/tag_list.hpp',I+'osm/tag.hpp'],[('TagList::add/get_value_by_key/operator[]',I+'osm/tag_list.hpp')],[('m_tags','tags in insertion order',I+'osm/tag_list.hpp')])
p('C08','Setting one attribute of an object sets that attribute and nothing else',
 'Every attribute setter of nodes, ways and relations, by value, by text or by attribute name, changes exactly the attribute it names to the value given and leaves every other attribute, the tags, and the type-specific data unchanged; unknown attribute names change nothing. New objects start out with id 0, version 0, changeset 0, no timestamp, the anonymous user id -1, an empty user, visible, and no tags. A user name that is too long or a timestamp that cannot be parsed is reported by an exception and leaves the object unchanged, and copies of an object are equal in every attribute.',
 ['inputs'],'all objects in any state, all attribute names and values',
 'Tests set a few attributes and read the same ones back; that no other attribute changes, for any prior state, is a frame condition no sample establishes.',
 [I+'osm/object.hpp',I+'osm/node.hpp',I+'osm/way.hpp',I+'osm/relation.hpp',I+'osm/types.hpp'],[('Object setters, set_attribute',I+'osm/object.hpp')],
 [('m_id..m_tags','attributes',I+'osm/object.hpp')])
p('C09','Relation members keep type, reference, role and order; bad roles change nothing',
 'A relation has exactly the members added to it, in the order they were added, each with the type, reference and role given, and copying a relation copies all of them. Adding a member whose role is too long throws and leaves the relation as it was. Removing the members removes all of them.',
 ['inputs','histories'],'all member sequences of any length, all roles including over-long ones',
 'Tests add a couple of members; that a failed addition leaves no trace is an exception-safety claim over all states.',
 [I+'osm/relation_member.hpp',I+'osm/relation_member_list.hpp',I+'osm/relation.hpp'],[('RelationMemberList::add_member',I+'osm/relation_member_list.hpp'),('RelationMember::role',I+'osm/relation_member.hpp'),('Relation::add_member',I+'osm/relation.hpp')])
p('C10','Ways keep their nodes in order and are closed iff first and last reference agree',
 'A way has exactly the node references added to it, in the order they were added, whether as plain references or with locations, and first, last and n-th node accessors and forward and backward iteration agree with that order; copying a way copies them all. A non-empty way is closed exactly if the references of its first and last node are equal. Adding a node never changes the nodes already there.',
 ['inputs','histories'],'all node sequences of any length',
 'Tests build ways of a few nodes; the claim is over every length and every reference value.',
 [I+'osm/way.hpp',I+'osm/way_node_list.hpp',I+'osm/way_node.hpp'],[('WayNodeList::add/push_back/is_closed',I+'osm/way_node_list.hpp'),('Way::add_node/get_first_node_id/...',I+'osm/way.hpp')])
p('C11','The end-time handler forwards every version once, in order, with its end time',
 'For any sequence of nodes, ways and relations, the end-time handler passes every object it receives to the next handler exactly once and in the order received, before the after-callback of its type is forwarded. When it forwards an object that is followed by another version of the same object, the end time of the forwarded object is the timestamp of that next version; in all other cases its end time stays unset.',
 ['histories','inputs'],'all histories: any number of objects of each type with any ids, versions and timestamps',
 'Not covered by any test; losing the last object of a run, forwarding twice, or pairing end times with the wrong version depends on where runs of equal ids begin and end.',
 [I+'handler/endtime.hpp'],[('EndTime::node/after_nodes and its siblings',I+'handler/endtime.hpp')],[('m_last_node/way/relation','object held back until its successor is known',I+'handler/endtime.hpp')])
p('C12','The history range filter forwards exactly the versions valid in the time range',
 'The range-from-history handler forwards an object exactly if its validity interval overlaps the requested range: its end time, if it has one, is not before the start of the range, and its timestamp is not after the end of the range (both ends included). Everything it forwards is forwarded once, unchanged and in order, and nothing else is forwarded.',
 ['inputs','histories'],'all timestamps, end times and ranges, for nodes, ways and relations',
 'Only an example uses it; boundary instants (equal timestamps) and unset end times need particular values.',
 [I+'handler/range_from_history.hpp',I+'handler/endtime.hpp'],[('RangeFromHistory::node/way/relation',I+'handler/range_from_history.hpp')])
p('C13','Forwarding and sequencing handlers relay every event once, in order',
 'A forwarding handler passes each of the twelve events it receives to the next handler exactly once with the same argument and triggers no other event on it. A sequence of two handlers passes each event first to the first and then to the second handler, once each, with the same argument. Neither adds, drops, duplicates or reorders events for any sequence of events.',
 ['histories','programs'],'all event sequences and all argument objects',
 'Tests drive a few of the twelve events; mixing up one rarely used event (areas, after-callbacks) passes them.',
 [I+'handler.hpp'],[('Forward, Sequence',I+'handler.hpp')])
p('C14','Input parsers bracket objects with the documented callback protocol',
 'For every input, of any order of object types, a handler sees init once before anything else if any event is delivered, then for each maximal run of objects of one type exactly one before-callback of that type, the objects, and exactly one after-callback of that type, and final once as the very last call. This holds also when a handler stops reading early, except that the open run is then not closed.',
 ['histories','inputs'],'all sequences of object types of any length, including empty input',
 'The fixture tests use small sorted files with a count of objects; interleaved types, empty input and early stops are never sampled.',
 [I+'input.hpp',I+'input/xml.hpp',I+'input/pbf.hpp'],[('call_after_and_before_on_handler',I+'input.hpp'),('parse',I+'input/xml.hpp'),('parse',I+'input/pbf.hpp')],[('m_last_object_type','type of the open run',I+'input.hpp')])
p('C15','The PBF reader reconstructs every object of a block exactly',
 'For every well-formed primitive block, the PBF reader delivers one object per encoded entity in order, with ids, references, positions, member types, tags, user, uid, changeset, version, visibility and timestamps equal to what the encoding defines: delta-coded columns are running sums starting at zero for each group (dense nodes) or entity, strings come from the block string table at the encoded index, coordinates are offset plus granularity times value in nanodegrees, timestamps are in units of the date granularity. Nothing carries over from one entity, group or block to the next.',
 ['inputs'],'all blocks: any number of entities, tags, references and members, any deltas, granularities and offsets',
 'No test reads a PBF file; errors in running sums, delimiters or column mix-ups need blocks with several entities, tags and unusual granularity.',
 [I+'input/pbf.hpp'],[('parse_dense_node_group, parse_node_group, parse_way_group, parse_relation_group',I+'input/pbf.hpp')])
p('C16','The PBF writer encodes every object so that the format decodes back to it',
 'For every sequence of objects written, each block decodes, by the rules of the format, back to the objects written since the previous block, in order within their kind and with all their attributes, tags, locations, references and members (at the default granularities exactly): delta columns restart with each group, way or relation, every string index refers to the right entry of the block string table, and dense key/value lists have one terminator per node. No block holds more than 8000 objects, an object is never lost between blocks, and the state of a block never leaks into the next; the header block carries the bounds and the required features. However the system splits writes, a block goes out as big-endian header length, header and blob with matching sizes.',
 ['inputs','histories'],'all object sequences, tag counts, way and relation lengths, for dense and plain node encoding and all metadata settings',
 'No test writes a PBF file; resets that are missed at block borders need thousands of objects or a switch of type to show.',
 [I+'output/pbf.hpp',I+'utils/delta.hpp',I+'utils/stringtable.hpp'],[('write_node, write_dense_node, write_way, write_relation, store_primitive_block, map_common_string_ids',I+'output/pbf.hpp'),('Delta::update',I+'utils/delta.hpp')])
p('C17','PBF framing never overruns a buffer and accepts exactly complete frames',
 'However the operating system splits reads, the PBF reader hands on exactly the bytes of the frame announced by the four-byte big-endian length, never writes outside its buffers, and raises an error for a header or blob size outside the allowed limits, for a truncated frame, and for data that does not decompress to exactly the announced size. End of file is reported only at a frame boundary, and a file that requires a feature the reader does not know is refused.',
 ['inputs','fault_sequences'],'all input bytes, all partial-read patterns, all announced sizes',
 'Needs hostile sizes and short reads, which no fixture contains.',
 [I+'input/pbf.hpp'],[('read_blob_header, read_blob, convert_from_network_byte_order, unpack_zlib, handle_blob, parse',I+'input/pbf.hpp')])
p('C18','The XML reader turns each element into exactly the object it describes',
 'For every sequence of elements in a well-nested OSM document, each node, way and relation element leads to exactly one object delivered at its end tag, with the attributes of the element, its tags, node references and members in document order, and nothing from any other element. An object without a visible attribute is delivered as not visible exactly inside a delete section; the bounds and generator of the document reach the handler with init. Unknown elements (inside an object with everything nested in them) and unknown attributes are ignored, and a document version other than 0.6 is rejected.',
 ['inputs','histories'],'all attribute lists, any number of child elements, all element sequences',
 'The tests read very few small XML documents with attributes in one fixed order.',
 [I+'input/xml.hpp'],[('start_element, end_element, init_object, check_tag',I+'input/xml.hpp')],[('m_context, m_in_delete_section, m_current_object','parser position',I+'input/xml.hpp')])
p('C19','The XML writer emits every object completely with balanced elements',
 'Every node, way and relation handed to the XML writer is written as exactly one element with its id, those of version, timestamp, uid and user (of a user that is not anonymous) and changeset that are set, its visibility in history files, its location if it has one, and all node references, members and tags in order. In change files every object is inside exactly one section: delete if it is not visible, else create for version 1 and modify for any other. Every element opened is closed, for every sequence of objects.',
 ['histories','inputs'],'all object sequences of any length and both plain and change output',
 'No test writes XML; section switching and attribute selection depend on the history of versions and visibility flags.',
 [I+'output/xml.hpp',I+'output.hpp'],[('node, way, relation, write_meta, write_tags, open_close_op_tag, final',I+'output/xml.hpp')],[('m_last_op','currently open change section',I+'output/xml.hpp')])
p('C20','File type and encoding follow from the file name and are validated when set',
 'The type and encoding of a file are determined by its suffix (what follows the first dot of the last component of its path) as documented, in every directory, are PBF without history for every other name and for standard input and output, and XML for http and https URLs; the name without suffix or with the default suffix keeps the directory. Setting the type or encoding by name accepts exactly the documented names with their documented meaning, and rejects every other with an exception without changing the file object. The flags of a type (has multiple object versions, default suffix) and of an encoding (default suffix, compression programs, PBF) are those of the type and encoding set last.',
 ['inputs'],'all file names and all type and encoding names',
 'Tests check a table of about twenty names; the claim is about all names, including dots in directories and unknown suffixes.',
 [I+'osmfile.hpp'],[('default_settings_for_file, type(), encoding(), constructor',I+'osmfile.hpp')])
p('C21','File objects own their descriptor: never shared, released exactly once',
 'Copying or assigning a file object copies name, type and encoding but never an open descriptor or a helper process, and leaves the original open. Every descriptor a file object has opened is closed exactly once and every helper process is waited for exactly once: when the object is closed, assigned to or destroyed, however often that happens. Opening opens the named file (or standard input or output, or a pipe to the right helper program, which never returns into the program) in the right mode; every failure of a system call is reported by an exception and leaves nothing open.',
 ['histories','fault_sequences'],'all sequences of open, copy, assign, close and destruction, with every failure of the system calls',
 'Tests open one or two real files; double close, sharing after copy, and system call failures are not sampled.',
 [I+'osmfile.hpp'],[('copy constructor, operator=, close, destructor, open_for_input/output',I+'osmfile.hpp')],[('m_fd, m_childpid','owned descriptor and process',I+'osmfile.hpp')])
p('C22','The object store keeps every object once and replays or merges them in order',
 'An object store contains each object inserted (or the first of those equal in id and version), and feeding it to a handler delivers all nodes, then all ways, then all relations, each kind in the order of id and version, with the before and after callbacks around each kind. Applying a stored change to a sorted stream delivers the merged sequence: the stored and streamed objects each once, in order, and nothing twice, also when the stream has no objects of a kind that is stored.',
 ['histories','inputs'],'all stores and all streams',
 'No test covers the merge; interleavings of stored and streamed ids decide which objects are lost.',
 [I+'storage/objectstore.hpp'],[('feed_to, ApplyHandler',I+'storage/objectstore.hpp')])
p('C23','The relation assembler completes each relation once, with the right members',
 'A relation the assembler is interested in and that has wanted members is completed exactly once, when the last of them has been seen, and at that time each wanted member is the object with the type and id at that position of the relation. Members shared by several relations, or wanted several times by one, reach all of those places; relations with missing members are never completed; objects no relation wants are reported as such, and every object goes on to the next handler once. (Every object is in the input once.)',
 ['histories','inputs'],'all relation sets and all object streams',
 'Not tested; sharing, duplicates and missing members combine in too many ways.',
 [I+'relations/assembler.hpp',I+'relations/relation_info.hpp'],[('Assembler, RelationInfo, MemberInfo',I+'relations/assembler.hpp')])
p('C24','Geometry export encodes every vertex once and in order',
 'The WKT, WKB and hex WKB of points, line strings and polygons contain the coordinates of the nodes of the geometry in order (reversed if so asked), each once, longitude first, with a count equal to the number of vertices (one ring for a polygon), in native byte order with the right type code and, if requested, the SRID; numbers in WKT have ten significant digits. Hex output is the upper-case hex of the binary, two digits per byte. A polygon is refused with an exception, instead of being written, exactly if its ring is empty or not closed.',
 ['inputs'],'all ways of any length, all coordinates, both directions, with and without SRID',
 'Tests compare a few literal strings; byte order, counts and duplicate removal for all vertex sequences are not reachable.',
 [I+'geometry.hpp',I+'geometry/point.hpp',I+'geometry/linestring.hpp',I+'geometry/polygon.hpp',I+'geometry/from_way.hpp'],[('AsWKB, AsHexWKB, AsWKT, stream operators',I+'geometry.hpp')])
p('C25','Timestamps format and parse as exact inverses; invalid text is rejected',
 'Formatting a timestamp gives its UTC time in ISO form, the empty string for an unset one, and parsing that text gives the timestamp back. Text that does not start with a date and time in that form is rejected with an std::invalid_argument exception, and an object whose timestamp was to be set from it keeps its timestamp. The result does not depend on the local time zone.',
 ['inputs'],'all timestamps with four-digit years, all strings',
 'Tests use three or four timestamps.',
 [I+'utils/timestamp.hpp',I+'osm/object.hpp'],[('to_iso, parse_iso',I+'utils/timestamp.hpp')])
p('C26','The PBF string table gives every string one id and every id its string',
 'While a block is built, recording a string returns the same interim id for equal strings and different ids for different strings, never zero. After the table is stored, entry 0 is the empty delimiter, the table has exactly one entry per distinct string, and the final id of every interim id is the index at which its string is stored. Clearing starts over with an empty table.',
 ['histories','inputs'],'all sequences of recorded strings up to the id limit',
 'Tests record three strings; uniqueness and the id mapping must hold for every history.',
 [I+'utils/stringtable.hpp'],[('record_string, store_stringtable, map_string_id, clear',I+'utils/stringtable.hpp')],[('m_strings, m_id2id_map, m_size','string to interim id to final id',I+'utils/stringtable.hpp')])
p('C27','Objects kept by a handler are never changed by the parser afterwards',
 'When a handler keeps a reference to an object it was given, that object keeps its identity and contents for as long as it is kept, whatever is parsed afterwards; each delivered object starts from a pristine state with nothing left over from earlier ones.',
 ['histories'],'all keep/release patterns of handlers over all input sequences',
 'No test keeps objects across callbacks; object reuse is an optimisation whose failure silently corrupts retained data.',
 [I+'input.hpp'],[('prepare_node/way/relation',I+'input.hpp')],[('m_node, m_way, m_relation','reusable objects',I+'input.hpp')])
p('C28','Distances are symmetric, zero for identical points and never negative',
 'The haversine distance between any two points is never negative, is zero for identical points and does not depend on the order of the points; the length of a way is the sum of the distances between consecutive nodes and is zero for ways of fewer than two nodes.',
 ['inputs'],'all coordinate pairs; all ways of any length',
 'Tests check single distances with a tolerance.',
 [I+'geometry/haversine.hpp'],[('Haversine::distance, distance of a way',I+'geometry/haversine.hpp')])
p('C29','Area ids map reversibly to ways and relations, and areas copy completely',
 'The id of an area is twice the id of the way it was made from, or twice the (non-zero) id of the relation plus or minus one following its sign, so that areas from different objects never share an id; the original id and the kind of the original object are recovered exactly from the area id, for all ids whose double is an id. An area has the attributes and tags of its origin, and a copy, by construction or assignment, equals the original and has, exactly if the original has one, a geometry of its own; the geometry an area has is destroyed once, with the area or when it is assigned to.',
 ['inputs'],'all way and relation ids within the doubled range, all attributes and tags, with and without geometries',
 'The area class is not compiled by the tests at all.',
 [I+'osm/area.hpp'],[('Area constructors, assignment, destructor, orig_id, from_way',I+'osm/area.hpp')])
p('C30','Multipolygon assembly produces valid polygons from member ways',
 'For every multipolygon relation with complete members, the builder joins the member ways into closed rings, assigns every inner ring to the outer ring around it, and produces a valid geometry or reports a problem.',
 ['inputs'],'all multipolygon relations','Not tested and not buildable here.',
 [I+'multipolygon/builder.hpp',I+'multipolygon/assembler.hpp'],[('MultiPolygon::Builder',I+'multipolygon/builder.hpp')])
p('C31','Scripts see the same objects and callbacks as native handlers',
 'A JavaScript program run through osmjs receives the same events with the same object contents as a native handler would.',
 ['programs','inputs'],'all scripts and inputs','Needs the V8 engine of 2012.',
 ['osmjs',I+'javascript'],[('Handler::Javascript',I+'javascript/handler.hpp')])
p('C32','Shapefile export writes every feature whole and never corrupts text',
 'Every feature added to a shapefile is stored with its geometry and with field values that are cut, if they do not fit, only at character boundaries of the UTF-8 text.',
 ['inputs'],'all features and strings','Not compiled here (needs shapelib).',
 [I+'export/shapefile.hpp'],[('add_attribute and its helpers',I+'export/shapefile.hpp')])
path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(path,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
for x in P:
    if len(x['title'])>80: print('LONG',x['id'],len(x['title']))
    if x['statement'].count('. ')>2: print('SENT',x['id'])
