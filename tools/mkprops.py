#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
B='include/boost/url/'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith(('src','test')) else B+f for f in files],
        state=[dict(zip(('name','meaning','where'),s)) for s in state],
        mechanism=[dict(name=m[0],where=B+m[1]) for m in mech],
        observe_at=list(observe),hook_needed=hook)))

ST=('parts','offsets of the components in the buffer, segment and parameter counts, host kind','include/boost/url/detail/parts.hpp')
p('C01','A string is accepted as a URL exactly when RFC 3986 says it is one',
 'For every byte string, constructing a url_view or a url from it, and url::set_encoded_url with it, succeed if and only if the string is an RFC 3986 URI-reference (absolute URI or relative reference; percent-escapes with two hex digits of either case; schemes with letters, digits, "+", "-", "."; registered names, IPv4, bracketed IPv6 and IPvFuture hosts; ports of any number of digits). All three entry points give the same verdict, and a refusal is reported as an exception of type invalid_part.',
 ['inputs'],'every byte string, of any length and content (all 256 byte values)',
 'The tests parse about 150 hand-picked strings; the accepted language is infinite and its boundary (IPv6 forms, escapes, path forms that depend on the presence of scheme and authority) is combinatorial.',
 ['detail/parse.hpp','detail/char_type.hpp','impl/url_view.ipp','impl/url_base.ipp'],
 [('recursive-descent parser','detail/parse.hpp'),('character tables','detail/char_type.hpp')],[],
 ['url_view(string)','url(string)','url::set_encoded_url'])
p('C02','Parsing splits a URL into exactly its RFC 3986 components',
 'For every accepted string, the component accessors (scheme, origin, authority, userinfo, user, password, host, port, path, query, fragment, their *_part and has_* variants) return exactly the pieces RFC 3986 assigns, in encoded form, with the documented separators included or excluded; an absent query, fragment, port or userinfo is distinguishable from an empty one through the *_part / has_* accessors. A url_view and a url made from the same string agree on every accessor, and a default-constructed url or url_view is the empty URL.',
 ['inputs'],'every valid URL string and every accessor',
 'Tests look at a few accessors of a few strings; most combinations of present/absent/empty components are never parsed.',
 ['detail/parse.hpp','detail/parts.hpp','impl/url_view.ipp','impl/url_base.ipp'],
 [('mark() bookkeeping of component offsets','detail/parse.hpp'),('accessors of url_view','impl/url_view.ipp'),('accessors of url','impl/url_base.ipp')],[ST],
 ['all const accessors of url_view and url'])
p('C03','host_type() and host() always describe the host text that is there',
 'At every moment, after parsing or after any sequence of modifications, host_type() is none if the host text is empty, ipv4 / ipv6 / ipvfuture if it is a valid address literal of that kind, and name otherwise. host() returns the percent-decoded text for a name and the literal text otherwise.',
 ['inputs','histories'],'every host text, reached by every way of setting or clearing the host (parse, host/authority/origin/url setters, clears)',
 'The kind is cached separately from the text; tests never read it after authority, origin or url setters or after clears, and address-literal syntax has a large boundary.',
 ['detail/parse.hpp','impl/url_base.ipp','url_base.hpp','url_view.hpp','host_type.hpp'],
 [('host kind cache','detail/parts.hpp'),('IPv4/IPv6/IPvFuture matching','detail/parse.hpp')],[ST],['host_type()','host()','encoded_host()'])
p('C04','The stored text is the URL: contiguous, complete, null-terminated',
 'At every moment encoded_url() is the concatenation of the scheme with its colon, the authority with its leading "//", the path, the query part and the fragment part, in that order and with nothing else; immediately after a successful parse it equals the input byte for byte. size() is its length, data() points at the same characters, and a url\'s characters are always followed by a null terminator.',
 ['inputs','histories'],'every valid URL and every sequence of modifications, across reallocations, growth and shrinkage',
 'Buffer shifting and offsets are updated by hand in every modifier; tests check one modification at a time and never the terminator.',
 ['impl/url_base.ipp','detail/storage.hpp','detail/parts.hpp','url_base.hpp'],
 [('resize(): shift the tail and fix the offsets','impl/url_base.ipp'),('alloc_storage','detail/storage.hpp')],[ST],['encoded_url()','size()','data()'])
p('C05','After any modifications the URL is valid and reparses to the same parts',
 'After any sequence of modifier calls, successful or refused, the URL text is a valid RFC 3986 URI-reference, and parsing that text afresh yields the same value for every accessor (components, host kind, path segments, query parameters) as the modified object reports.',
 ['histories','inputs'],'every finite history of modifier calls with arbitrary arguments, starting from any URL',
 'Tests apply single modifiers to friendly URLs; validity depends on interactions between components (a path that becomes an authority, a segment that becomes a scheme, stale counts).',
 ['impl/url_base.ipp','detail/parse.hpp'],
 [('modifiers of url_base','impl/url_base.ipp')],[ST],['every accessor after every call'])
p('C06','A modifier sets its own component and leaves the others alone',
 'When a modifier for the url, origin, scheme, authority, userinfo, user, password, host, port, path, query or fragment returns normally with a non-empty argument, reading that component back gives exactly the argument (percent-encoded for plain-text modifiers; for set_encoded_origin, whose argument is a scheme, ":" and optionally an authority, any path after them is ignored) and every component outside it has the value it had before; an authority ("//") is introduced when the component needs one. Modifiers return the object itself.',
 ['histories','inputs'],'every modifier, every valid argument, every prior URL',
 'Tests compare the whole URL for a handful of (URL, modifier, argument) triples; wrong offsets typically show only for other combinations.',
 ['impl/url_base.ipp','detail/parts.hpp'],
 [('resize/split and copy in each modifier','impl/url_base.ipp')],[ST],['every accessor before and after'])
p('C07','Clearing a component removes it together with its separators',
 'Giving a modifier an empty string removes that component and its separators and nothing else: the scheme with ":", the query with "?", the fragment with "#", the port with ":", the password with its ":" (and "@" if no user remains), the user (and "@" if no password part remains), the userinfo with "@", the authority with "//". Clearing the host or port also removes a "//" after which nothing remains, clearing the userinfo (also by set_userinfo_part("@")) does so if host and port are absent; otherwise clearing something absent changes nothing.',
 ['histories','inputs'],'every clear on every URL, including components that are absent, empty-but-present, or the last one in the authority',
 'Each clear has several cases depending on which neighbours exist; tests touch only some.',
 ['impl/url_base.ipp'],[('empty-argument branches of the modifiers','impl/url_base.ipp')],[ST],['every accessor after a clear'])
p('C08','Modifiers refuse exactly the malformed or ambiguous requests',
 'A modifier taking encoded text throws invalid_part if and only if its argument is not valid RFC 3986 text for that component in the current URL (for set_encoded_password a leading ":" also counts as invalid, the *_part forms require their separator, and set_encoded_origin requires a scheme), or the change would make the text read back differently: adding an authority before a path that does not start with "/", removing the authority before a path that starts with "//", or removing the scheme before a relative path whose first segment contains ":". A modifier taking plain text is refused only for the latter reasons.',
 ['inputs','histories'],'every modifier, every byte string argument, every prior URL',
 'Tests throw a few malformed strings at a few modifiers; they never ask for a change that is only ambiguous in context.',
 ['impl/url_base.ipp','detail/parse.hpp','detail/char_type.hpp'],
 [('parse_* / match_* / validate on arguments','detail/parse.hpp'),('context checks in modifiers','impl/url_base.ipp')],[ST],['exception or normal return of each modifier'])
p('C09','A call that throws leaves the URL unchanged',
 'Whenever a modifier, a segment edit or an assignment throws - because the argument is refused or because the allocator fails, at whichever allocation - every accessor (capacity included) returns what it returned before the call and the object remains fully usable. Constructors that throw leak nothing.',
 ['fault_sequences','histories','inputs'],'every modifier, every refused argument, failure of every allocation, every prior URL and capacity',
 'No test injects an allocation failure, and none looks at the object after an exception except two segment edits.',
 ['impl/url_base.ipp','detail/storage.hpp','basic_url.hpp'],
 [('validate, then reserve, then mutate','impl/url_base.ipp'),('alloc_storage::reserve','detail/storage.hpp')],[ST],['every accessor after an exception'])
p('C10','Plain-text setters store any byte string and give it back',
 'For every byte string (nulls and non-ASCII bytes included), after set_user, set_password, set_host, set_query, set_fragment or a plain segment insert/replace the matching decoding accessor returns that string, and the encoded form keeps each byte that the component allows and replaces each other byte, and only those, with "%" and two upper-case hex digits. A percent sign in plain text is always escaped.',
 ['inputs','histories'],'all byte strings for each plain-text setter, on every prior URL',
 'Tests set about ten plain strings; there are 256 byte values for each of six components, and output length must be predicted exactly.',
 ['detail/char_type.hpp','impl/url_base.ipp'],
 [('pct_encoding tables, encoded_size, encode','detail/char_type.hpp')],[],['set_*(plain) then decoded and encoded accessor'])
p('C11','Decoding accessors undo percent-encoding exactly',
 'user(), password(), host() of a registered name, query(), fragment(), segment string() and parameter key()/value() return the encoded text with every "%XX" (either case) replaced by that byte and every other byte unchanged, whatever allocator is used for the result.',
 ['inputs'],'all 256 byte values in all three digit-case spellings, at every position of every component',
 'Tests decode five escapes.',
 ['detail/char_type.hpp','url_view.hpp','url_base.hpp'],[('decode, raw_decoded_size, hex_digit','detail/char_type.hpp')],[],['decoding accessors'])
p('C12','Path segments enumerate the path, forwards and backwards',
 'At every moment segments() of a url_view, of a const url and of a url list the pieces of the encoded path between slashes (a leading slash introduces the first segment, an empty path has none): size() and empty() agree with the iteration, begin() to end() visits them in order, stepping back from end() visits them in reverse, and any mix of ++ and -- moves accordingly.',
 ['inputs','histories'],'every path, with and without query and fragment, parsed or produced by any modification; every walk of the iterator',
 'Tests walk two paths, neither of a url_view with a query or fragment, none after a path modifier.',
 ['impl/url_view.ipp','impl/url_base.ipp','url_view.hpp','url_base.hpp'],[('segments_type iterators','impl/url_base.ipp'),('segments_type iterators of the view','impl/url_view.ipp'),('segment count','detail/parts.hpp')],[ST],['segments()'])
p('C13','Segment edits behave like edits of a list of strings',
 'insert, insert_encoded, replace, replace_encoded and erase of one segment or a range change the segment list exactly as the same edit of a list of strings would, keep the path absolute or relative as it was (an empty path becomes absolute), touch no other component, and return an iterator to the element after the inserted, replaced or erased ones. An insert or replace whose result could not be read back as that list in this URL (such as a leading empty segment without an authority), or whose encoded text is not a valid segment, throws invalid_part; erase never throws and keeps such a result readable by leaving one leading "." segment.',
 ['histories','inputs'],'every URL, every position, every segment text, every sequence of edits',
 'One test edits one URL that has an authority and a query; relative paths, paths at the end of the URL and edits after other modifiers are never exercised.',
 ['impl/url_base.ipp','url_base.hpp'],[('insert_impl, insert_encoded_impl, erase, replace','impl/url_base.ipp')],[ST],['segments() edits'])
p('C14','Query parameters enumerate the query, forwards and backwards',
 'At every moment params() of a url_view, of a const url and of a url list the pieces of the query between ampersands, each split at its first "=" into key and value (value empty when there is no "="); an absent query has no parameters and an empty one has a single empty parameter. size() and empty() agree with the iteration, which works in both directions, and a fragment is never part of a parameter.',
 ['inputs','histories'],'every query, with and without fragment, parsed or set by any modifier; every walk of the iterator',
 'Tests walk one query, without fragment and never after a query modifier.',
 ['impl/url_view.ipp','impl/url_base.ipp','detail/parse.hpp'],[('params_type iterators','impl/url_base.ipp'),('params_type iterators of the view','impl/url_view.ipp'),('parameter count in parse_query','detail/parse.hpp')],[ST],['params()'])
p('C15','Parameter lookup matches decoded keys and returns the first match',
 'contains, count, find, operator[] and at compare the given byte string with the percent-decoded keys: count is the number of equal keys, find returns the first of them or end(), operator[] and at return its decoded value, and for a missing key operator[] returns an empty string and at throws out_of_range.',
 ['inputs','histories'],'every query and every key, escaped or not, including prefixes, empty keys and repeated keys',
 'Tests look up three unescaped one-letter keys.',
 ['impl/url_view.ipp','impl/url_base.ipp','detail/char_type.hpp'],[('key_equal','detail/char_type.hpp'),('lookup functions','impl/url_base.ipp')],[],['params() lookups'])
p('C16','Normalization lower-cases the scheme only; special schemes are recognised',
 'normalize and normalize_scheme turn the upper-case letters of the scheme into lower case and change nothing else, so they are idempotent. string_to_scheme and is_special recognise exactly ftp, file, http, https, ws and wss in any letter case and whatever the current locale, and to_string gives the lower-case name back.',
 ['inputs','histories'],'every URL and every string',
 'Tests normalize seven spellings of http and look up nine schemes in lower case.',
 ['impl/url_base.ipp','impl/scheme.ipp','scheme.hpp'],[('normalize_scheme','impl/url_base.ipp'),('string_to_scheme','impl/scheme.ipp')],[],['normalize()','string_to_scheme()'])
p('C17','Every URL can be built from its parts, in any order that is accepted',
 'Starting from an empty url, setting scheme, authority (or origin), path, query part and fragment part of any valid URL reproduces that URL exactly (except that a "//" followed by nothing cannot be set this way, an empty authority being a request to clear it). Setting distinct components (scheme, user, password, host, port, path, query, fragment) to non-empty values gives the same URL in every order in which no call is refused.',
 ['inputs','histories'],'every valid URL; every set of component values and every permutation of the calls',
 'Tests never build a URL from several modifiers.',
 ['impl/url_base.ipp'],[('modifiers of url_base','impl/url_base.ipp')],[ST],['encoded_url() after a sequence of modifiers'])
p('C18','Copying and assigning a url gives an equal, independent url',
 'A url copy-constructed, move-constructed or copy-assigned from another has the same text and the same value for every accessor as the source had, and later modification or destruction of either does not affect the other; self-assignment changes nothing. Each uses its own storage.',
 ['histories','inputs'],'every source and target URL, followed by every history of modifications of both',
 'No test copies or assigns a url.',
 ['basic_url.hpp','url_base.hpp'],[('copy operations of basic_url','basic_url.hpp')],[ST],['copy, move, assignment, then every accessor of both'])
p('C19','Operations stay in bounds and reuse the buffer while the URL fits',
 'No sequence of public calls, with any arguments that do not refer to the URL\'s own characters, reads or writes outside the URL\'s own storage, trips an internal assertion, hangs or crashes. capacity() is never less than size() and never shrinks, and a modification whose resulting URL fits in the current capacity neither allocates nor moves the characters; every buffer obtained from the allocator is returned to it exactly once with its size. No more than the max_size of the allocator is ever requested: a URL that would need more is refused with too_large.',
 ['histories','inputs','fault_sequences'],'every history of calls, every argument length, every allocator including failing and counting ones',
 'Tests run without sanitizers or a checking allocator and check capacity in one place.',
 ['detail/storage.hpp','impl/url_base.ipp','impl/url_view.ipp','detail/char_type.hpp'],[('alloc_storage','detail/storage.hpp'),('resize','impl/url_base.ipp')],[ST],['crash-freedom, allocator calls, capacity(), data()'])
p('C20','A static pool hands out disjoint, aligned memory inside its buffer',
 'Every block obtained through a static pool\'s allocators lies inside the pool\'s buffer, is aligned for its type and overlaps no block obtained earlier; a request that does not fit in what remains throws std::bad_alloc and leaves the pool usable; two allocators compare equal exactly if they use the same pool. Strings and urls using such allocators behave like those using the default allocator until the pool is exhausted, and a url whose allocation is refused is unchanged.',
 ['histories','inputs','configurations'],'every pool size and every sequence of requests of every size and alignment',
 'The pool is only used with one large size for tiny strings; exhaustion and alignment are never reached.',
 ['static_pool.hpp','basic_url.hpp'],[('basic_static_pool::allocate','static_pool.hpp')],[],['allocator_type::allocate','basic_url over a pool'])
p('C21','A url owns its text, a url_view borrows it, and reading changes neither',
 'A url never refers to characters passed to it after the call returns: overwriting or freeing them changes no observation. A url_view refers to exactly the characters it was made from, and making, copying and reading encoded parts of it copies and allocates nothing; a copy of a view, container or iterator observes the same and moving one copy of an iterator does not move another. No sequence of accessor calls, iterations or lookups changes what any later accessor returns.',
 ['histories','inputs'],'every way of giving a url its text, every URL, every sequence of observations',
 'Tests pass string literals, which outlive everything, and read each object once.',
 ['url_base.hpp','url_view.hpp','impl/url_base.ipp','impl/url_view.ipp','basic_url.hpp'],[('copying into the buffer in every modifier','impl/url_base.ipp'),('pointer to the characters in the view','url_view.hpp')],[ST],['all accessors, before and after the source is overwritten'])
p('C22','Concurrent readers and users of separate urls do not interfere',
 'Any number of threads may observe the same url or url_view at the same time (accessors, iteration, lookups, copying), each getting what it would get alone, and threads working on separate urls, views or pools do not affect one another, in every interleaving. No such use is a data race.',
 ['schedules','histories'],'every interleaving of const operations on shared objects and of arbitrary operations on separate objects',
 'No test uses a second thread.',
 ['url_base.hpp','url_view.hpp','impl/url_base.ipp','impl/url_view.ipp','impl/scheme.ipp','impl/error.ipp','detail/char_type.hpp'],[('no mutable or static state behind the const interface','impl/url_base.ipp')],[ST],['all const operations from several threads'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
