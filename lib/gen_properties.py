#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line). Kept as a script so the long texts stay reviewable."""
import json, os
B='src/lamppost/bus/Bus.cpp'; BH='include/lamppost/bus/Bus.h'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

prop('C01','Every published message reaches each matching subscriber exactly once',
 "While the tree of buses is running, every message published through any bus of the tree is delivered exactly once to every subscriber, on whatever bus of the tree, that existed before the bus began to deliver the message, still exists, and whose topic equals the message's topic or is the match-all pattern \"/**/*\". It is delivered to no other subscriber. This holds for messages published before the root bus is run, from concurrent threads, and from inside subscriber callbacks.",
 ['schedules','inputs','histories'],
 'All interleavings of any number of publishing, subscribing and bus-running threads, all tree shapes, all topics and all sequences of publishes before, while and between runs.',
 'BusTest samples a handful of single-publisher runs with fixed sleeps; lost or duplicated messages need a particular interleaving of publish, queue swap and subscriber changes.',
 [B,BH,'src/lamppost/bus/Publisher.cpp','src/lamppost/bus/Subscriber.cpp','src/lamppost/utilities/AntMatcher.cpp'],
 [('message queue swapped into a batch under the queue mutex','Bus::Run'),('recursive distribution to subscribers and child buses','Bus::Distribute'),('topic matching','AntMatcher::Matches')],
 [('message queue','messages published and not yet taken by the running bus','Bus::mQueuedMessages'),('subscriber list','subscribers of one bus','Bus::mSubscribers')],
 ['subscriber callbacks','publish calls'])
prop('C02','All subscribers see one common order that respects publication order',
 "There is one total order of all messages of a bus tree such that every subscriber receives its messages in that order, and a message whose publication returned before the publication of another one began comes before it. Subscriber callbacks of one bus tree never overlap: all callbacks for one message have finished before the first callback for the next message begins, and they run in the thread that runs the root bus.",
 ['schedules','histories'],
 'All interleavings of concurrent publishers (including publishes from inside callbacks) and all subscriber placements in the tree.',
 'The tests publish from one thread to one subscriber at a time; a reordering needs several publishers, several batches or publishes from callbacks.',
 [B],[('FIFO queue and batch processing in the running thread','Bus::Run'),('depth first distribution','Bus::Distribute')],
 [('message queue','FIFO of published messages','Bus::mQueuedMessages')],['subscriber callbacks'])
prop('C03','A delivered message is what was published, isolated from later changes',
 "Every delivery carries the sender, topic and payload that the message had when it was published; a message published through a publisher names the bus the publisher was created on as its sender and the publisher's topic as its topic. Changes that the publisher makes to the payload after publishing, or that one subscriber makes to what it received, are seen by nobody else.",
 ['schedules','inputs','histories'],
 'All payload trees, all later mutations by publishers and by other receivers, at every bus of the tree.',
 'The tests compare one payload in one callback and never mutate it or look at a second receiver.',
 [B,BH,'include/lamppost/messages/Datagram.h','src/lamppost/messages/Message.cpp'],
 [('deep copies of datagrams','Datagram copy constructor / RawDatagram::Copy'),('sender set from the bus name','Bus::Publish')],
 [],['subscriber callbacks'])
prop('C04','Deleted subscribers and publishers are inert once their deletion returned',
 "When the deletion of a subscriber has returned to a caller outside of that subscriber's own callback, no callback of it is running and none will ever start again; a subscriber that is deleted from inside a callback receives no further message either. Publishing through a publisher after its deletion returned has no effect, and a bus reports exactly those subscribers and publishers as contained that were created on it and not deleted.",
 ['schedules','histories'],
 'All interleavings of deletion with deliveries in progress and with publishing, from other threads and from callbacks.',
 'The tests delete on an idle bus; the races between deletion and a delivery in progress are never scheduled.',
 [B,BH,'src/lamppost/bus/Subscriber.cpp','src/lamppost/bus/Publisher.cpp'],
 [('removal and reset under the list mutex, which is held during callbacks','Bus::DeleteManagedResource, Bus::Distribute'),('callback copied under its mutex','Subscriber::Receive, Publisher::Publish')],
 [('subscriber list','','Bus::mSubscribers')],['callbacks after delete calls returned','contains queries'])
prop('C05','Stopping, restarting and detaching buses does what it says',
 "After a stopped root bus's run call returned, nothing is delivered until it is started again, and then every message published after that return is delivered in order. A stopped child bus (with all buses below it) receives nothing that is published after the stop returned until it is started again, while the rest of the tree is unaffected. After a bus was detached or destroyed, its former descendants are stopped and nothing published through it or its descendants is delivered anywhere, and creating children on it fails.",
 ['schedules','histories'],
 'All sequences and interleavings of start, stop, detach, publish and tree changes.',
 'Only start followed by stop on an idle bus is tested; restart, child stop and detach are not covered by any test.',
 [B],[('run flag checked at every bus on distribution','Bus::Distribute'),('publish function reset','Bus::Detach'),('child buses stopped and detached recursively','Bus::Detach, Bus::~Bus')],
 [('run flag','','Bus::mShouldRun'),('publish function','','Bus::mPublishMessageFunction')],['subscriber callbacks','publish calls'])
prop('C06','The bus tree is addressed by unique, non-empty child names',
 "Among the children of one bus every name is used at most once, also when several threads create children at the same time: exactly one creation succeeds and the others fail with a duplicate key error. Looking up a name yields exactly the child that was created under it and fails with a key-not-found error when there is none; empty bus names and missing callbacks are rejected with an argument error, and a failed call changes nothing.",
 ['schedules','inputs','histories'],
 'All sequences and interleavings of creations and lookups over all names.',
 'Tests check one duplicate and one lookup sequentially.',
 [B],[('map of children checked and changed under its mutex','Bus::CreateChildBus, Bus::GetChildBus')],[('children','','Bus::mChildBusses')],['results of create and lookup calls'])
prop('C07','The bus never hangs and never sleeps on pending messages',
 "No bus operation deadlocks, also when it is called from inside a subscriber callback of the same bus tree (publishing, creating, changing and deleting subscribers, publishers and child buses, stopping buses). A running bus that is idle delivers a newly published message at once instead of on its next periodic check, and the run call returns promptly after a stop.",
 ['schedules','histories'],
 'All interleavings; all combinations of bus operations issued from callbacks at any nesting and from other threads.',
 'A lost wake-up or a lock-order deadlock shows in one of many thousand interleavings; the tests only ever sleep long enough for the periodic check to hide it.',
 [B,BH],[('condition variable tied to the queue mutex','Bus::Run'),('recursive list mutexes','Bus.h')],
 [('queue notifier','','Bus::mNotifier')],['progress of calls in a controlled schedule with virtual time'])
prop('C08','The bus API is free of data races and use-after-free',
 "Any set of threads may concurrently publish, create, delete and query subscribers and publishers, change callbacks, create, look up, start, stop and detach buses and issue, answer and time out action requests on one bus tree without a data race or an access to released memory.",
 ['schedules','histories'],
 'All interleavings of all operations of the bus API by any number of threads.',
 'The test suite uses at most two threads and no race detector; a race needs no visible failure to exist.',
 [B,BH,'src/lamppost/bus/ActionConsumer.cpp','src/lamppost/bus/ActionProvider.cpp','src/lamppost/bus/Publisher.cpp','src/lamppost/bus/Subscriber.cpp'],
 [('per-member mutexes and atomics','Bus.h, Publisher.h, Subscriber.h, ActionConsumer.h')],[],['memory accesses and synchronisation operations of instrumented code'])
prop('C09','Action responses reach exactly the requester that is waiting for them',
 "A response that a provider sends for a request is handed to that request and to no other, with the payload the provider gave, and to at most one response callback even if several responses arrive for the same request or several consumers use the same topic. Concurrent requests, also of several consumers of one topic, never share a request identifier, and responses with unknown, missing or already answered identifiers are ignored.",
 ['schedules','inputs','histories'],
 'All interleavings of requests and (possibly repeated, late, forged) responses on one topic.',
 'One request with one response is tested.',
 ['src/lamppost/bus/ActionConsumer.cpp',BH],[('map of open requests keyed by invocation id','ActionConsumer::ProcessResponse'),('random identifiers','Uuid::CreateUuid')],
 [('open requests','','ActionConsumer::mOpenRequests')],['request callbacks','request return values'])
prop('C10','A blocking action request returns its response or, on time, nothing',
 "A blocking request returns the response as soon as one is delivered before the time limit, and returns an empty value when the time limit has passed without one, neither noticeably earlier nor later. A response that arrives after the request gave up has no effect on anything, in particular not on later requests.",
 ['schedules','histories'],
 'All interleavings of response delivery with the expiry of the time limit, all time limits.',
 'The tests contain one answered blocking request; the race with the time limit is never exercised.',
 ['src/lamppost/bus/ActionConsumer.cpp'],[('condition wait on shared state of the pending request','ActionConsumer::Request')],
 [('pending response','','ActionConsumer::Request')],['return values and return times in virtual time'])
prop('C11','Action providers see every request once and nothing else',
 "Every provider on the request's topic is called exactly once for every request of every consumer, with the request's identifier and its payload, and can answer immediately or at any later time from any thread. Anything else that is published on the request topic (no identifier, identifier of the wrong type, not a dictionary) is ignored and does not disturb the bus.",
 ['schedules','inputs','histories'],
 'All interleavings of requests by several consumers to several providers and all malformed payloads.',
 'One provider and one well-formed request are tested.',
 ['src/lamppost/bus/ActionProvider.cpp',BH],[('request subscriber','Bus::CreateActionProvider')],[],['provider callbacks'])
prop('C12','Datagram operations follow the documented value tree semantics',
 "A datagram is empty, a value (string, integer, double or boolean), a list or a dictionary; assigning, adding, setting, removing, clearing and counting have the effects of the corresponding operations on such a tree, changing the kind of a node exactly when the operation requires it. Operations that do not apply (index out of range, unknown key, wrong kind, wrong value type) throw the matching exception and leave the whole tree unchanged.",
 ['inputs','histories'],
 'All finite sequences of operations on all datagram trees.',
 'The tests execute about thirty fixed operations; kind changes and failing operations are hardly covered.',
 ['src/lamppost/messages/RawDatagram.cpp','include/lamppost/messages/RawDatagram.h','include/lamppost/messages/Datagram.h','src/lamppost/messages/Datagram.cpp'],
 [('kind tag with three containers','RawDatagram'),('conversion on first use','RawDatagram::operator[], RawDatagram::Add')],
 [('datagram tree','','RawDatagram')],['getters, kinds, counts, printed form'])
prop('C13','Copies of datagrams are independent, element access is by reference',
 "Copying, assigning, passing or storing a datagram inside another one or into a message creates a value that shares nothing with the original: no later change of one shows in the other. Accessing an element of a datagram by key or by index yields a reference: changing it changes exactly that element of the tree it was taken from.",
 ['inputs','histories'],
 'All trees, all copy paths (construction, assignment, adding, embedding, messages) and all later mutations on either side.',
 'Tests copy only flat values and mutate one side once.',
 ['src/lamppost/messages/Datagram.cpp','src/lamppost/messages/RawDatagram.cpp','include/lamppost/messages/Datagram.h'],
 [('recursive copy','RawDatagram::Copy'),('shared nodes for element access','Datagram::operator[]')],[],['getters after mutation of the other side'])
prop('C14','Equality of datagrams and messages is structural',
 "Two datagrams compare equal exactly if they have the same kind and, for values, the same value type and value, for lists the same length with pairwise equal elements in order, for dictionaries the same keys with equal values. Two messages are equal exactly if sender, topic and datagram are equal; equality is reflexive, symmetric and transitive, and a copy equals its original.",
 ['inputs'],'All pairs of trees.','A few hand-picked pairs are compared.',
 ['src/lamppost/messages/RawDatagram.cpp','src/lamppost/messages/Data.cpp','include/lamppost/messages/Data.h','src/lamppost/messages/Message.cpp'],
 [('recursive comparison','RawDatagram::operator=='),('typed comparison','Data<T>')],[],['operator== and operator!='])
prop('C15','Path lookup returns the addressed value or the default and changes nothing',
 "Looking up a slash separated path in a datagram yields the value reached by following the keys if it exists and has exactly the requested type, and the given default in every other case. Lookups never throw and never change the datagram.",
 ['inputs'],'All trees, all path strings (including empty components and paths through non-dictionaries), all types and defaults.',
 'One test looks up two paths.',
 ['include/lamppost/messages/RawDatagram.h'],[('recursive path walk','RawDatagram::Get(path, default)')],[],['lookup results','tree before and after'])
prop('C16','Messages survive the wire format unchanged',
 "Serialising any message and deserialising the bytes yields an equal message: same sender, same topic and the same datagram tree with all kinds, value types, values, element order and keys, including empty lists, dictionaries and strings, binary and non-ASCII strings and extreme numbers. The message that was serialised is not changed by it.",
 ['inputs'],'All messages (all trees, senders, topics).','Tests serialise three small messages.',
 ['src/lamppost/messages/Message.cpp','src/lamppost/messages/RawDatagram.cpp','schemas/FBDatagram.fbs','schemas/FBMessage.fbs'],
 [('recursive flatbuffer conversion','RawDatagram::SerializeToStructure, RawDatagram::DeserializeFromStructure')],[],['deserialised message'])
prop('C17','JSON text decodes to the corresponding datagram or to nothing',
 "Decoding a well-formed JSON document whose root is an object or array gives the datagram with the same structure: objects become dictionaries, arrays lists, strings strings, whole numbers (of 32 bits) integers, other numbers doubles, true and false booleans and null an empty datagram, at every nesting depth and including empty objects and arrays. Decoding text that is cut off or contains a syntax error (something that is no JSON even by the lenient rules of the JSON parser in use) gives an empty datagram and never fails in any other way.",
 ['inputs'],'All JSON documents and all malformed texts.','One test document.',
 ['src/lamppost/messages/RawDatagram.cpp'],[('recursive conversion of the parsed document','RawDatagram::ParseJsonObject')],[],['decoded datagram'])
prop('C18','The sender trail of a message is an exact sequence of names',
 "Prepending a sender puts exactly that name, as a new first element, in front of the message's trail of senders and leaves the rest as it was. A message counts as sent by a name exactly if that name is the first element of a trail with at least one more element, and removing a sender takes exactly that first element off in this case and changes nothing otherwise. Names that are prefixes or parts of other names are never confused, and topic and payload are unaffected.",
 ['inputs','histories'],'All sequences of prepends and removals over all names without the separator.','Tests use two distinct names.',
 ['src/lamppost/messages/Message.cpp'],[('slash separated trail','Message::PrependSender, RemoveSender, WasSentBySender')],[('sender trail','','Message::mSender')],['sender string and queries'])
prop('C19','Every plugin instance has a unique name and a bus of its own',
 "Each instance of a plugin is named after its template followed by the lowest index not yet used for that template, counting from zero (template identifiers do not end in digits), and gets a child bus of that name of its own below the bus it is created on (the host's root bus unless another is given), so that what it publishes carries its name as sender. Instantiating an unknown template yields no instance, creates no bus and disturbs no other instance.",
 ['histories','configurations'],'All sequences of instantiations over all templates, including templates that fail to create an instance.',
 'No test instantiates a plugin.',
 ['src/lamppost/plugin/PluginTemplate.cpp','src/lamppost/plugin/PluginManager.cpp'],[('lowest free index','PluginTemplate::Instantiate'),('default bus','PluginManager::InstantiateTemplate')],
 [('instances','','PluginTemplate::mInstances')],['instance identifiers and sender names'])
prop('C20','Plugin instances live through one orderly life cycle',
 "Every plugin instance is initialised once, then runs once in a thread of its own, is asked to stop once the host stops, is deinitialised exactly once and only after its thread ended, and is destroyed before its library is unloaded. When the host's start call returns, all instances have gone through all of this, whatever their number, order and running time, and also if an instance's run ends on its own.",
 ['schedules','histories','configurations'],'All sets of instances, all relative timings of their threads and of the stop request.',
 'No test starts a plugin.',
 ['src/lamppost/LampPost.cpp','src/lamppost/plugin/PluginInstance.cpp','src/lamppost/plugin/PluginTemplate.cpp','src/lamppost/plugin/PluginManager.cpp'],
 [('stop flag and join','PluginInstance::Stop'),('stop all, then deinitialise all','PluginTemplate::Unload'),('close libraries last','PluginManager::UnloadTemplates')],
 [('worker thread','','PluginInstance::mWorkerThread')],['events recorded by plugins'])
prop('C21','Configuration files create exactly the configured plugins',
 "For each configuration file in order, and each entry of its plugin list in order, exactly one instance of the named plugin is created, initialised and started, and it sees exactly the configuration written in its entry (and an empty one if there is none). Entries that are malformed or name an unknown plugin, and files that are missing, empty or malformed, are skipped without affecting the others or ending the host.",
 ['inputs','configurations'],'All contents of all configuration files.','No test reads a configuration file.',
 ['src/lamppost/LampPost.cpp'],[('iteration over the plugin list with error handling per entry','LampPost::ReadConfigurationFile')],[],['plugins created and their configurations'])
prop('C22','A stop request ends the host in every phase, and its state is reported',
 "A stop request (by call or by SIGINT/SIGTERM to the program) that arrives at any moment after the host object exists - before, during or after setup, while plugins are initialised, while the bus runs, during shutdown, repeatedly - makes the start call return after an orderly shutdown and the program end with exit code 0. The host reports itself as stopped exactly from the completion of that shutdown on.",
 ['schedules','crash_points','configurations'],'All moments at which a stop request or signal can arrive.',
 'No test starts the host.',
 ['src/lamppost/LampPost.cpp','src/main.cpp','src/lamppost/platformspecific/xnix/Xnix.cpp'],[('run flag set before anything can stop it','LampPost::LampPost, Bus::Run'),('signal handlers','main.cpp')],
 [('run state','','LampPost::mRunState')],['return of the start call, exit code, state queries'])
prop('C23','Exactly the proper plugin libraries in the search paths become templates',
 "From the search paths (the program's directory, the working directory and its lib directory, plus the added ones) exactly those files become available as plugin templates that carry the platform's plugin prefix and extension, can be loaded, export the two entry points and report a non-empty identifier, under that identifier. All other files are skipped without affecting the rest.",
 ['inputs','configurations'],'All directory contents.','No test loads a template.',
 ['src/lamppost/plugin/PluginManager.cpp','src/lamppost/Filesystem.cpp'],[('file name filter and symbol checks','PluginManager::LoadTemplate')],[('templates','','PluginManager::mTemplates')],['which plugin types can be instantiated'])
prop('C24','Linked hosts forward every message once and never echo it',
 "While the links run, a message published on one host's bus arrives exactly once on the bus of every host that is directly linked to it, from server to clients and from a client to its server, with topic and payload unchanged and with the receiving link's name put in front of its sender trail. A message that came in through a link is never sent out again by that same link, but other links of the same host forward it. Shutting links down always comes to an end, whatever became of the hosts they were linked to.",
 ['schedules','histories','configurations'],'All sequences and interleavings of messages published on the linked hosts.',
 'No test covers the link plugin.',
 ['src/plugins/link/Link.cpp','src/lamppost/messages/Message.cpp'],[('wildcard subscriber with sender check','Link::Initialize'),('receive loop','Link::Run')],[],['messages observed on each bus and frames handed to the transport'])
prop('C25','Malformed frames and bytes are rejected without harm',
 "Bytes that do not form a complete message (truncated, corrupted, empty, random) are rejected with an exception by deserialisation, or decoded if they happen to be well-formed, but never read out of bounds or crash. A link that receives such bytes, or a frame without content, publishes nothing for it and keeps working for later messages; content that comes in several parts is joined before it is decoded.",
 ['inputs','fault_sequences'],'All byte strings and all multi-part frames.','No test feeds malformed bytes.',
 ['src/lamppost/messages/Message.cpp','src/lamppost/messages/RawDatagram.cpp','src/plugins/link/Link.cpp'],[('verification of the buffer','Message::Deserialize'),('exception handling','Link::ReceiveMessage')],[],['exceptions, published messages'])
prop('C26','Path and directory functions behave as defined for every path',
 "Splitting a path into base directory, file name and extension, combining two paths and checking for existence give the textually defined results for every path with a directory separator, and combining the base directory with the file name addresses the same file again. Listing a directory returns exactly its files, or exactly its directories without the special entries, as asked for.",
 ['inputs','configurations'],'All path strings and all directory contents.','No test covers the file system functions.',
 ['src/lamppost/Filesystem.cpp'],[('string splitting at the last separator or dot','Filesystem.cpp')],[],['return values'])
prop('C27','Log lines are never interleaved',
 "Every log call writes exactly one complete line with its prefix in brackets, its indentation of two spaces per level and its text, and lines written by concurrent threads through any logger objects never mix, get lost or repeat.",
 ['schedules'],'All interleavings of log calls.','No test covers logging.',
 ['src/lamppost/log/Log.cpp'],[('one process-wide mutex','Log::WriteSynchronized')],[],['standard output'])
prop('C28','Configurations compare equal exactly if all their parts do',
 "Two host configurations, or two plugin manager configurations, compare equal exactly if all the settings they consist of (configuration files in order, search paths in order, nested configuration and attached bus) are equal, and unequal otherwise.",
 ['inputs'],'All pairs of configurations.','A few pairs differing in one setting are compared.',
 ['include/lamppost/LampPostConfiguration.h','include/lamppost/plugin/PluginManagerConfiguration.h'],[('member-wise comparison','operator==')],[],['operator=='])
prop('C29','Printing a datagram or message shows its complete content',
 "Writing a datagram to a stream gives exactly one text determined by its content: null for an empty one, strings in double quotes, booleans as 1 and 0, numbers as streams print them, lists as [A, B, ...] in their order and dictionaries as {KEY: VALUE, ...} in the byte order of their keys, nested to any depth; a message is printed as [SENDER to TOPIC]: DATAGRAM. Printing changes nothing.",
 ['inputs','histories'],'All datagrams and messages, after all histories of operations on them.','Tests print two or three small datagrams.',
 ['include/lamppost/messages/RawDatagram.h','include/lamppost/messages/Datagram.h','include/lamppost/messages/Message.h','include/lamppost/messages/Data.h'],[('recursive printing','operator<<(std::ostream&, const RawDatagram&)')],[],['operator<<'])
prop('C30','Byte buffers hold exactly the bytes given to them, in order',
 "A byte buffer's size and content are at all times exactly the concatenation of the bytes it was created with and all bytes appended since, including zero bytes, empty pieces and pieces of any size, and it shares no memory with the caller's data.",
 ['inputs','histories'],'All sequences of constructions and appends.','Byte buffers are only tested indirectly.',
 ['src/lamppost/data/RawBytes.cpp'],[('reallocation and copy','RawBytes::Append')],[('buffer','','RawBytes::mContent')],['size and content'])
prop('C31','The system information plugin answers every request and survives every message',
 "While the bundled system information plugin runs, every instance of it notes each message on /sysinfo in the log exactly once (texts as they are, anything else as it is printed), notes every proper request on its action /sysinfoaction and answers it exactly once with the text \"This is the response message.\", and publishes \"Hello Bus!\" on /sysinfo as soon as it is started and every two seconds after that if its configuration sets send-datagram to true, and never otherwise. No content of any message or request, proper or not, ends the host or keeps the plugin from doing this.",
 ['schedules','inputs','configurations'],'All contents of messages on its topics, all configurations, any number of instances, and all interleavings with publishers and the running bus.','No test covers the plugin.',
 ['src/plugins/sysinfo/SysInfo.cpp','src/plugins/sysinfo/SysInfo.h'],[('callbacks of the subscriber and the action provider','SysInfo::Initialize'),('greeting loop','SysInfo::Run')],[],['messages on the bus, responses to action requests, log lines'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
print(len(P))
