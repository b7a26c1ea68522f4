"""Single source of the property list; writes ../properties.jsonl."""
import json, pathlib

P = []


def prop(id, title, statement, over, quant, why, files, mech, state, observe, hook=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "state": [{"name": x} if isinstance(x, str) else x for x in state],
            "observe_at": observe,
        },
    }
    if hook:
        d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop(
    "P01", "A clean restart reproduces the network model",
    "After any history of joins, interviews, address changes, attribute updates and clears, unsupported-attribute changes, relays, topology scans, group changes, device removals and network backups, shutting the application down cleanly and loading a new one from the same database yields the same model: the same devices with the same addresses, node descriptors, endpoints, clusters, manufacturer/model, cached attribute values, unsupported attributes, relays, neighbours, routes, groups with members, and backups. Only last-seen and attribute timestamps may differ, and by at most 30 s; nothing removed reappears and nothing is invented. However often a known device joins or announces itself again, each later change is handed to storage exactly once.",
    ["histories", "schedules"],
    "every sequence of model-changing events and clock steps on any number of devices, with every interleaving of the persistence worker with those events and a clean shutdown at any moment",
    "Unit tests reload after one or two hand-written events; equality must hold after every history and every interleaving of the queue worker with live objects that keep changing.",
    ["zigpy/appdb.py", "zigpy/application.py", "zigpy/zcl/__init__.py", "zigpy/group.py", "zigpy/topology.py", "zigpy/backups.py"],
    [("event queue worker", "zigpy/appdb.py:PersistingListener._worker"), ("save handlers", "zigpy/appdb.py:PersistingListener._save_device"), ("load", "zigpy/appdb.py:PersistingListener.load"), ("clean shutdown", "zigpy/application.py:ControllerApplication.shutdown")],
    ["app.devices and everything below it", "app.groups", "app.topology.neighbors/routes", "app.backups", "SQLite tables *_v13"],
    ["public attributes of the reloaded application"],
)
prop(
    "P02", "A crash leaves the database at a prefix of the event history",
    "If the process is killed, or power is lost, at any instant, the database opens and loads without error and its content equals the effect of some prefix of the persisted event sequence: never half of one event, never an event without the ones before it. After a process kill that prefix includes every event the persistence worker had finished.",
    ["crash_points", "histories"],
    "every crash instant (between any two database steps, and with any tail of the unsynced write-ahead log lost) in every event history",
    "Tests never kill the process; there are as many crash points as statements and the guarantee is about all of them.",
    ["zigpy/appdb.py", "zigpy/application.py"],
    [("one commit per event", "zigpy/appdb.py:PersistingListener._save_device"), ("WAL journal", "zigpy/appdb.py:PersistingListener.initialize_tables"), ("event queue worker", "zigpy/appdb.py:PersistingListener._worker")],
    ["SQLite database and write-ahead log files"],
    ["model loaded by a new application from the files as the crash left them"],
)
prop(
    "P03", "A storage error costs at most the event it hit",
    "When a database statement or commit fails (disk I/O error, full disk, locked database), or an event carries a value SQLite cannot store, at most that one event is lost, and it is lost whole: no other event is lost, delayed for ever or half applied, no exception reaches packet handling, later events are still persisted and shutdown still completes.",
    ["fault_sequences", "histories"],
    "every placement of any number of statement and commit failures (including ones for which SQLite rolls the transaction back by itself) in every event history",
    "Needs a failure at each individual statement of each event, followed by more events and a restart; tests inject at most one error into one handler.",
    ["zigpy/appdb.py"],
    [("error handling in the worker", "zigpy/appdb.py:PersistingListener._worker"), ("multi-statement events", "zigpy/appdb.py:PersistingListener._neighbors_updated")],
    ["open transaction of the connection", "SQLite tables"],
    ["database content after the run", "later events", "completion of shutdown"],
)
prop(
    "P04", "Schema migration is all-or-nothing and loses no data",
    "Opening a database written by any older schema version either brings it to the current version with every device, endpoint, cluster, cached attribute, group, membership, relay, neighbour, route, unsupported attribute and backup preserved, or (on a storage error or a crash at any point) leaves it exactly as it was, so that the next attempt succeeds. A database newer than the code is never modified by migration, an inconsistent one is refused, and re-opening a migrated database changes nothing.",
    ["crash_points", "fault_sequences", "inputs"],
    "every source version, every consistent content, every crash or statement failure during the migration",
    "Tests migrate a few sample databases once without faults; atomicity is about a failure at each of the hundreds of statements.",
    ["zigpy/appdb.py", "zigpy/appdb_schemas/__init__.py"],
    [("single transaction", "zigpy/appdb.py:PersistingListener._transaction"), ("migrations", "zigpy/appdb.py:PersistingListener._run_migrations"), ("script runner", "zigpy/appdb.py:PersistingListener.executescript")],
    ["SQLite tables of every version", "PRAGMA user_version"],
    ["database content after success, failure and crash", "model loaded afterwards"],
)
prop(
    "P05", "A joining device ends up fully and correctly interviewed",
    "Whatever messages are lost, delayed, duplicated or reordered while a device joins or rejoins, it is announced as initialized only once its node descriptor and every endpoint are known, its descriptors, endpoints, clusters, manufacturer and model equal what the device itself reports, and a failed interview is reported as an init failure. Once messages get through again and the device speaks, it becomes initialized within a bounded time.",
    ["schedules", "fault_sequences"],
    "every loss, delay, duplication and reordering of join, announce and interview messages for any number of concurrently joining devices",
    "Tests mock each ZDO reply; the guarantee concerns partial interviews interrupted at any message and resumed, cancelled or duplicated by later announcements.",
    ["zigpy/device.py", "zigpy/application.py", "zigpy/endpoint.py"],
    [("interview with retries", "zigpy/device.py:Device._initialize"), ("join handling", "zigpy/application.py:ControllerApplication.handle_join"), ("resuming on traffic", "zigpy/application.py:ControllerApplication.packet_received")],
    ["Device.node_desc/endpoints/status/_initialize_task"],
    ["device_initialized / device_init_failure / device_joined events", "Device attributes"],
)
prop(
    "P06", "A request ends exactly once, with its own answer or an error",
    "Every ZDO or ZCL request to a device completes exactly once: with the decoded reply the device sent to that very transaction, or with a timeout no later than its timeout after transmission, or with the radio's delivery error, or by cancellation of the caller. A reply to another request, a late or duplicate reply, or unrelated traffic never completes it, and nothing stays pending afterwards.",
    ["schedules", "fault_sequences"],
    "every interleaving of concurrent requests with loss, duplication, delay and reordering of replies, delivery failures, caller cancellation and unsolicited traffic",
    "Matching errors show only when late, duplicated or foreign replies meet a pending transaction at the wrong moment.",
    ["zigpy/device.py", "zigpy/util.py", "zigpy/application.py"],
    [("transaction table", "zigpy/util.py:Requests"), ("reply matching", "zigpy/device.py:Device.packet_received"), ("timeouts", "zigpy/device.py:Device.request")],
    ["Device._pending", "sequence counter"],
    ["result or exception of the awaiting caller", "packets given to send_packet"],
)
prop(
    "P07", "Device requests are serialized by priority and never starve others",
    "At most one request per device is being transmitted or awaiting its reply at any time; waiting requests start in order of priority and, within a priority, in the order they were issued. Whether a request succeeds, times out, fails to send or is cancelled (while waiting or while in flight) the next one starts, and a slow or silent device never delays requests to other devices.",
    ["schedules", "fault_sequences"],
    "every set of concurrent requests with any priorities, failures, cancellations and reply timings over any number of devices",
    "The order and the absence of stuck queues depend on where cancellations and completions fall between scheduler steps.",
    ["zigpy/device.py", "zigpy/datastructures.py"],
    [("per-device limiter", "zigpy/device.py:Device._limit_concurrency"), ("priority semaphore", "zigpy/datastructures.py:PriorityDynamicBoundedSemaphore")],
    ["Device._concurrent_requests_semaphore"],
    ["order and times of send_packet calls", "completion of callers"],
)
prop(
    "P08", "The priority semaphore grants correctly and never loses a wakeup",
    "The bounded priority semaphore never has more holders than its maximum, grants waiting acquirers highest priority first and first-come first-served within a priority, and whenever capacity is free and someone is waiting, a waiter obtains it without further outside events; cancelled acquirers take no capacity and hold no one else up. Raising or lowering the maximum at run time takes effect the same way, and the waiter count it reports is the number of tasks actually waiting.",
    ["schedules", "fault_sequences"],
    "every interleaving of acquire, release, cancellation (before, at and after the moment of wake-up) and maximum changes",
    "Lost wakeups need a cancellation to land between the wake-up and the resumption of one particular task.",
    ["zigpy/datastructures.py"],
    [("wake-up protocol", "zigpy/datastructures.py:PriorityDynamicBoundedSemaphore.acquire"), ("dynamic maximum", "zigpy/datastructures.py:PriorityDynamicBoundedSemaphore.max_value")],
    ["_value", "_max_value", "_waiters"],
    ["order in which acquire() returns", "value, locked(), num_waiting"],
)
prop(
    "P09", "Identical packets are processed once per debounce window, others always",
    "A packet equal in everything but timestamp, TSN metadata, LQI and RSSI to one accepted from the same device less than 10 s earlier is not processed again; a packet arriving after that window, or differing in any other field, is always processed. Signal quality and last-seen are updated by every packet, processed or not.",
    ["schedules", "histories"],
    "every arrival sequence and timing of identical and different packets",
    "Expiry order depends on how many different packets are remembered and on their relative ages; tests use one or two.",
    ["zigpy/device.py", "zigpy/datastructures.py"],
    [("debouncer", "zigpy/datastructures.py:Debouncer"), ("duplicate filter", "zigpy/device.py:Device.packet_received")],
    ["Debouncer._times", "Debouncer._queue"],
    ["cluster command and attribute events", "Device.lqi/rssi/last_seen"],
)
prop(
    "P10", "No received packet can break the receiver",
    "Whatever bytes, addresses, endpoints, clusters and profiles arrive, in any device state, handing the packet to the application raises nothing, and the application keeps working: valid traffic before and after is processed as if the bad packet had not come, pending requests still complete or time out, and no device, group or attribute appears that no valid packet introduced.",
    ["inputs", "histories", "fault_sequences"],
    "every truncated, corrupted, misaddressed or random packet injected at every moment of normal operation",
    "The input space is unbounded and the effect depends on the state (initializing, pending request, unknown device) the packet meets.",
    ["zigpy/application.py", "zigpy/device.py", "zigpy/zdo/__init__.py", "zigpy/zcl/__init__.py"],
    [("ZDO peeking", "zigpy/application.py:ControllerApplication._maybe_parse_zdo"), ("header and payload parsing", "zigpy/device.py:Device.packet_received"), ("ZCL parsing", "zigpy/zcl/__init__.py:Cluster.deserialize")],
    ["app.devices", "Device._pending", "attribute caches"],
    ["exceptions out of packet_received", "behaviour of later traffic"],
)
prop(
    "P11", "Response listeners see each matching message once, while registered",
    "While registered, callbacks and futures get the decoded messages (other than responses completing a pending request) of their device, or of any device, that match them: the listeners for any device first, then those of the device, each in order of registration, up to and including the first future the message resolves; none before registration, after unregistration or from another device. A future is resolved by one message only, and a resolved or cancelled future never absorbs a message meant for a later listener. Listeners or matchers that raise, and callbacks that register or unregister listeners while being called, disturb neither the other listeners nor normal message handling.",
    ["schedules", "histories"],
    "every interleaving of registration, unregistration, cancellation and message arrival with any number of listeners",
    "Re-entrancy and the order of registration, resolution and arrival are scheduling matters.",
    ["zigpy/application.py", "zigpy/listeners.py", "zigpy/device.py"],
    [("registration contexts", "zigpy/application.py:ControllerApplication.wait_for_response"), ("dispatch loop", "zigpy/device.py:Device.packet_received"), ("matching", "zigpy/listeners.py:BaseRequestListener.resolve")],
    ["app._req_listeners"],
    ["callback invocations", "future results", "cluster events"],
)
prop(
    "P12", "A firmware update delivers the exact image or ends with a clear status",
    "Every image block a device receives carries exactly the image bytes at the offset it asked for, at most 40 of them and no more than it asked for, answering its own request; an update reports success only if the device reported success. A query for another image, a request outside the image and a block that cannot be sent end the update at once. Whatever is lost, duplicated, delayed or sent out of order, the update ends within 30 s of the last progress with the device's status or a timeout or failure status, at most one update runs per device, progress is reported only while it runs, and afterwards the device can be updated again.",
    ["schedules", "fault_sequences", "inputs"],
    "every image, block size, request order, retry pattern, message loss and device abort during a transfer",
    "Transfers are long multi-message histories; stalls, retries and aborts may fall between any two blocks.",
    ["zigpy/ota/manager.py", "zigpy/device.py"],
    [("block server", "zigpy/ota/manager.py:OTAManager._image_block_req"), ("stall timer", "zigpy/ota/manager.py:OTAManager._finish"), ("exclusive update", "zigpy/device.py:Device.update_firmware")],
    ["Device.ota_in_progress", "OTAManager._upgrade_end_future", "_stall_timer"],
    ["blocks received by the simulated device", "result and progress callbacks"],
)
prop(
    "P13", "OTA image lookup offers only genuine, compatible, unambiguous images",
    "For any mix of slow, failing, corrupt or hanging image sources, a lookup ends within a bounded time and offers as upgrades exactly the newer images compatible with the querying device whose downloaded content matches its declared size, checksum and format, best first, excluding every set of equally ranked images whose contents differ. Concurrent lookups share one index fetch and one download per image, each gets its own complete answer, cancelling one never fails another, and a failed download is retried at the next lookup.",
    ["fault_sequences", "schedules", "inputs"],
    "every set of provider indexes and images, every failure, delay and corruption of an index or download, every interleaving of concurrent and cancelled lookups",
    "Sharing, caching and failure isolation only matter when several lookups overlap with failures.",
    ["zigpy/ota/__init__.py", "zigpy/ota/providers.py", "zigpy/util.py"],
    [("lookup", "zigpy/ota/__init__.py:OTA.get_ota_images"), ("validation", "zigpy/ota/providers.py:BaseOtaImageMetadata._validate"), ("call sharing", "zigpy/util.py:combine_concurrent_calls")],
    ["OTA._image_cache", "provider index time"],
    ["OtaImagesResult", "HTTP requests made"],
)
prop(
    "P14", "Network backups never lose or rewrite a network",
    "The backup list holds only complete backups, each frozen at the state of its moment whatever happens to the live network later; a new backup replaces exactly the older ones of the same network whose frame counter it does not roll back, so the newest backup of every distinct network is always kept. Restoring writes precisely the backed-up settings with the frame counter advanced by the increment and never below the backup, both JSON formats round-trip (optional parts another program left out read as their defaults), and periodic backups continue after failures until stopped.",
    ["histories", "fault_sequences"],
    "every sequence of network changes, counter advances and rollbacks, backups, restores, exports, imports and radio failures",
    "Retention and aliasing errors need several backups of changing networks, created at different moments, compared with what they should have captured.",
    ["zigpy/backups.py", "zigpy/state.py", "zigpy/application.py"],
    [("retention", "zigpy/backups.py:BackupManager.add_backup"), ("restore", "zigpy/backups.py:BackupManager.restore_backup"), ("periodic loop", "zigpy/backups.py:BackupManager._backup_loop"), ("open format", "zigpy/backups.py:_open_coordinator_backup_to_network_backup")],
    ["BackupManager.backups", "network_backups table"],
    ["backup list", "settings written to the radio", "JSON documents"],
)
prop(
    "P15", "Group membership mirrors what the devices confirmed",
    "An endpoint is a member of a group exactly when the device's last confirmed answer (add, remove or membership response, in order of processing) says so; both directions of the relation and the persisted one agree at every moment, and each real change is announced once. Failed, refused or unanswered group commands change nothing, removing a group detaches all its members, and a rescan after rejoin converges to the device's own table.",
    ["histories", "schedules", "fault_sequences"],
    "every interleaving of group commands and rescans on many endpoints with refusals, losses and removal of groups and devices",
    "The two-sided relation is updated from several concurrent flows; agreement must hold after each of them.",
    ["zigpy/group.py", "zigpy/endpoint.py", "zigpy/device.py", "zigpy/application.py"],
    [("membership relation", "zigpy/group.py:Group.add_member"), ("sync", "zigpy/group.py:Groups.update_group_membership"), ("commands", "zigpy/endpoint.py:Endpoint.add_to_group"), ("rescan", "zigpy/device.py:Device.schedule_group_membership_scan")],
    ["Groups", "Group members", "Endpoint.member_of", "group tables"],
    ["groups and member_of", "group events", "reloaded groups"],
)
prop(
    "P16", "A removed device is gone everywhere; one that rejoins is whole",
    "After remove(), within a bounded time and whether or not the device answers, the device is asked to leave (its parents too, for end devices; unless earlier requests to it take all of that time), is in neither the application nor the database nor any group, stays gone after restart, and other devices are untouched. If it joins again, before or after that, it is interviewed, tracked and persisted like any new device; leave notifications alone delete nothing.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of removal, interview, replies, losses, leave notifications, rejoins and restart",
    "The window between asking a device to leave and forgetting it spans seconds of arbitrary traffic.",
    ["zigpy/application.py", "zigpy/appdb.py", "zigpy/group.py"],
    [("removal", "zigpy/application.py:ControllerApplication.remove"), ("delayed forget", "zigpy/application.py:ControllerApplication._remove_device"), ("database removal", "zigpy/appdb.py:PersistingListener._remove_device")],
    ["app.devices", "devices table and cascades", "groups"],
    ["app.devices", "Mgmt_Leave_req packets", "device_removed / device_left events", "reloaded model"],
)
prop(
    "P17", "Topology scans record each router's full tables and never wedge",
    "A completed scan holds for each router that answered exactly the neighbour entries with a valid IEEE address and the route entries that are not inactive in its tables, whatever page sizes it uses, keeps the previous tables of routers that did not answer, and asks neither end devices nor devices known not to support it; unknown addresses found are looked up. Starting a scan replaces a running one, scheduled scans run every period whatever manual scans, failures and cancellations happen, and after stopping no scan traffic is sent.",
    ["schedules", "fault_sequences", "histories"],
    "every topology, paging, failure, timeout and every interleaving of manual scans, periodic scans, cancellation and stop",
    "Scans last minutes of simulated time across many devices; cancellation and stop can land at any request.",
    ["zigpy/topology.py", "zigpy/application.py"],
    [("table paging", "zigpy/topology.py:Topology._scan_table"), ("scan replacement", "zigpy/topology.py:Topology.scan"), ("periodic loop", "zigpy/topology.py:Topology._scan_loop")],
    ["Topology.neighbors/routes", "_scan_task", "_scan_loop_task"],
    ["neighbours/routes and their events", "Mgmt_Lqi_req / Mgmt_Rtg_req packets"],
)
prop(
    "P18", "Startup and shutdown are clean under every failure",
    "If connecting or initializing fails or is cancelled at any step, startup disconnects the radio, leaves no background task running (new() also no open database) and raises the cause (transient connection errors as TransientConnectionError), and the same application can be started again. While running, watchdog feeds, backups, topology scans and OTA broadcasts happen at their configured periods whatever fails, and a failed watchdog feed is reported through connection_lost exactly once and feeding then stops. Shutdown always completes, disconnects, flushes the database and ends every periodic activity even if the radio or database fails. Probing tries the given settings and then each variant the radio library names, in order and each once, returns the first that connect (else False) and disconnects every attempt, also when cancelled.",
    ["fault_sequences", "schedules", "crash_points"],
    "every failing step of startup and shutdown, every moment of radio failure, every shutdown moment relative to running background work",
    "Requires failing each await of startup and stopping at each moment of periodic work; leaked loops act long after a test would have ended.",
    ["zigpy/application.py", "zigpy/appdb.py", "zigpy/topology.py", "zigpy/backups.py", "zigpy/ota/__init__.py"],
    [("startup cleanup", "zigpy/application.py:ControllerApplication.startup"), ("shutdown", "zigpy/application.py:ControllerApplication.shutdown"), ("watchdog", "zigpy/application.py:ControllerApplication._watchdog_loop")],
    ["background tasks", "radio connection", "database connection"],
    ["radio calls after startup failure or shutdown", "exceptions", "connection_lost events"],
)
prop(
    "P19", "Forming, restoring and moving a network apply valid settings once",
    "A formed network has valid settings: every configured value is used, every missing one is a usable random or optimal value (PAN id 0x0001-0xFFFE, channel from the allowed mask), and the result is backed up (a temporary network is not). Starting an unformed radio forms only when asked and restores the latest backup if there is one; a radio whose settings contradict the latest backup is refused when validation is on; restoring writes exactly the backup with its frame counter advanced, never an incomplete one unless allowed, and leaves the backup itself unchanged; a channel move broadcasts the same new channel and incremented update id the requested number of times and returns only once the radio reports that channel.",
    ["histories", "fault_sequences", "configurations"],
    "every configuration, radio state, backup history, energy scan result and failure or delay of radio operations",
    "Covers all random draws, configurations and orders of failures, of which tests fix one or two.",
    ["zigpy/application.py", "zigpy/backups.py", "zigpy/util.py", "zigpy/config/__init__.py"],
    [("forming", "zigpy/application.py:ControllerApplication.form_network"), ("initialize", "zigpy/application.py:ControllerApplication.initialize"), ("channel move", "zigpy/application.py:ControllerApplication.move_network_to_channel"), ("channel choice", "zigpy/util.py:pick_optimal_channel")],
    ["app.state.network_info/node_info", "backups"],
    ["write_network_info arguments", "broadcast packets", "exceptions"],
)
prop(
    "P20", "The attribute cache holds the last value the device gave",
    "For every attribute the cache holds the value of the last successfully processed report, read response or acknowledged write for it, and each update is announced once with that value; failed, timed-out or refused reads and writes leave it unchanged, and reads return for each requested attribute that was answered or cached either its value or its failure status. An attribute is marked unsupported exactly while the device's last answer about it (to a read or to configuring its reporting) was that it is unsupported, cached reads never contact the device for known attributes, and cached-only reads never contact it at all.",
    ["histories", "schedules", "fault_sequences"],
    "every interleaving of reads, writes, configure-reporting, reports and cached reads over many attributes, with partial failures, losses and duplicate or late replies",
    "The cache is updated from several concurrent flows and per-attribute partial results.",
    ["zigpy/zcl/__init__.py"],
    [("reads", "zigpy/zcl/__init__.py:Cluster.read_attributes"), ("writes", "zigpy/zcl/__init__.py:Cluster.write_attributes_raw"), ("reports", "zigpy/zcl/__init__.py:Cluster.handle_cluster_general_request"), ("unsupported set", "zigpy/zcl/__init__.py:Cluster.add_unsupported_attribute")],
    ["Cluster._attr_cache", "Cluster.unsupported_attributes"],
    ["Cluster.get", "read results", "attribute events", "packets sent"],
)
prop(
    "P21", "Retry, call sharing and timeout helpers keep their contracts",
    "retry() calls the function until it succeeds or the tries are used up, only after listed exceptions, with the delay between tries, and passes every other outcome (including cancellation) through at once. Concurrent equal calls of a shared coroutine run it once, all get its outcome, different arguments never share, a finished call is never reused and cancelling one caller neither cancels nor fails the others; a reschedulable timeout fires once, never before nor later than its last set deadline, and never after being cancelled.",
    ["schedules", "fault_sequences"],
    "every interleaving of calls, completions, exceptions, cancellations, reschedules and clock progress",
    "Outcomes depend on which caller is cancelled or rescheduled at which step.",
    ["zigpy/util.py", "zigpy/datastructures.py"],
    [("retry", "zigpy/util.py:retry"), ("call sharing", "zigpy/util.py:combine_concurrent_calls"), ("timeout", "zigpy/datastructures.py:ReschedulableTimeout")],
    ["task table of combine_concurrent_calls", "ReschedulableTimeout._timer"],
    ["calls of the wrapped function", "results and exceptions of callers", "callback times"],
)
prop(
    "P22", "Devices are tracked by IEEE address across network address changes",
    "A device is one object per IEEE address; after it announces or confirms a new network address, its later requests go to that address, traffic from it is attributed to it, exactly one join event is raised per new join or address change (none for a mere re-announcement) and the new address is what a restart loads. Packets or relays from an unknown network address trigger an address lookup whose answer creates and interviews the device; well-formed source routes from the last relays are used when source routing is on.",
    ["histories", "schedules", "fault_sequences"],
    "every sequence of announces, address responses, address changes, unknown-device traffic, relays and restarts, with loss and reordering",
    "Address changes race with requests in flight, interviews and other devices' traffic.",
    ["zigpy/application.py", "zigpy/device.py", "zigpy/appdb.py"],
    [("join handling", "zigpy/application.py:ControllerApplication.handle_join"), ("lookup", "zigpy/application.py:ControllerApplication.get_device"), ("discovery", "zigpy/application.py:ControllerApplication._discover_unknown_device"), ("source routes", "zigpy/application.py:ControllerApplication.build_source_route_to")],
    ["app.devices", "Device.nwk", "Device.relays", "devices table"],
    ["destination of sent packets", "device_joined events", "reloaded addresses"],
)
prop(
    "P23", "Requests from devices are answered once, correctly and to the asker",
    "Each new incoming network-address, IEEE-address or match-descriptor request about the coordinator, attribute read, attribute report asking for a default response, and firmware query or block request outside an update, is answered exactly once, to the sender, on its endpoint and cluster, with the request's transaction number and manufacturer code and correct content; address requests about others and responses are not answered. Failing or slow answers affect neither the sender's other traffic nor anything else, and each command is passed to its cluster's listeners exactly once.",
    ["schedules", "fault_sequences", "inputs"],
    "every interleaving of incoming requests from several devices with the coordinator's own requests, delivery failures and duplicates",
    "Replies compete with outgoing requests for the same device; tests check a handler in isolation.",
    ["zigpy/zdo/__init__.py", "zigpy/zcl/__init__.py", "zigpy/zcl/clusters/general.py", "zigpy/endpoint.py"],
    [("ZDO service", "zigpy/zdo/__init__.py:ZDO.handle_message"), ("attribute server", "zigpy/zcl/__init__.py:Cluster.handle_cluster_general_request"), ("OTA outside update", "zigpy/zcl/clusters/general.py:Ota.handle_cluster_request"), ("Time server", "zigpy/zcl/clusters/general.py:Time.handle_read_attribute_time")],
    ["none beyond the request itself"],
    ["packets given to send_packet", "cluster listener events"],
)

prop(
    "P28", "A quirk takes over its device without losing it",
    "A device that matches a registered quirk (v1 or v2) is announced, tracked and, after every restart or rejoin, reloaded as one object of the responsible quirk's class (a matching v2 quirk, else the exact v1 match registered last, else a wildcard one) with its addresses, status, last seen, link quality, relays and (unless overridden) node descriptor; its endpoints and clusters are the device's with the quirk's additions, removals and replacements, each in its server or client role, and v2 keeps the values already known of clusters it leaves alone. Its traffic reaches those clusters once; constant attributes are answered without the device, alone or mixed with others; the manufacturer code is sent exactly for manufacturer-specific clusters, attributes and commands; answers to earlier requests never complete later ones. Devices no quirk matches are left alone.",
    ["histories", "schedules", "fault_sequences", "inputs"],
    "every set of quirks and devices, and every sequence of joins, reports, reads, writes, commands, address changes and restarts with message loss, delay and duplication",
    "The takeover happens between an interview and later traffic, and again from the database; tests apply a quirk to an idle mock device.",
    ["zigpy/quirks/__init__.py", "zigpy/quirks/registry.py", "zigpy/quirks/v2/__init__.py", "zigpy/application.py", "zigpy/appdb.py"],
    [("lookup", "zigpy/quirks/registry.py:DeviceRegistry.get_device"), ("v1 replacement", "zigpy/quirks/__init__.py:BaseCustomDevice"), ("v2 changes", "zigpy/quirks/v2/__init__.py:AddsMetadata"), ("constants and manufacturer codes", "zigpy/quirks/__init__.py:CustomCluster"), ("takeover", "zigpy/application.py:ControllerApplication.device_initialized")],
    ["app.devices", "endpoints and clusters of the custom device", "attribute cache and its times", "request sequence number"],
    ["device_initialized argument", "frames sent to the device", "read results", "reloaded devices"],
)

prop(
    "P29", "Group, binding and permit commands reach exactly whom they name",
    "A command or attribute write called on a group goes out as one multicast to exactly that group and cluster, carrying exactly that command with its arguments and manufacturer code under a sequence number not in recent use; it is confirmed for that command once the radio took it and fails with the radio's error otherwise. Opening the network for joining broadcasts the time to all routers and then opens the coordinator; opening it at one node touches that node alone, an unknown node nothing, and an unreachable router is not an error. Bind and unbind name the device, the cluster's endpoint and id and the coordinator's endpoint, and return the device's status. An install code with a valid checksum gives the radio the key derived from it; any other is refused. All of this holds under concurrency, losses, radio failures and cancelled callers.",
    ["schedules", "fault_sequences", "inputs"],
    "every mix of concurrent group commands, bindings, permit calls and install codes with every pattern of losses, radio failures and cancellations",
    "Tests call each once on a mocked radio; who is reached and what is reported depend on failures, order and the state of sequence counters.",
    ["zigpy/group.py", "zigpy/application.py", "zigpy/zdo/__init__.py", "zigpy/zcl/__init__.py", "zigpy/util.py"],
    [("multicast", "zigpy/group.py:Group.request"), ("permit", "zigpy/application.py:ControllerApplication.permit"), ("binding", "zigpy/zdo/__init__.py:ZDO.bind"), ("install codes", "zigpy/util.py:convert_install_code")],
    ["Group._send_sequence", "group clusters"],
    ["packets handed to the radio", "results and exceptions of the calls", "permit_ncp and permit_with_link_key calls"],
)

prop(
    "P30", "Every listener hears every event, once and in order",
    "Each event of the application, its groups, a device, its ZDO or a cluster (reports, commands, announcements, leaves, relays, group changes, marks, a lost connection) is delivered with its arguments to every listener registered on that object, once per registration, in the order they were registered, and with the object passed first to those registered with context. This holds whatever other listeners do while it is being delivered: raise any exception, unregister themselves or others, register more, or cause further events; none of it reaches the sender of the event, and unregistering a listener removes one registration of exactly that listener.",
    ["histories", "fault_sequences", "inputs"],
    "every set and order of listeners, every history of registrations, every listener failure and re-entrant action during delivery",
    "Tests use one or two listeners that behave; the defects live in listeners that change the list, fail or re-enter in the middle of a delivery.",
    ["zigpy/util.py", "zigpy/application.py", "zigpy/zcl/__init__.py", "zigpy/zdo/__init__.py", "zigpy/group.py", "zigpy/device.py"],
    [("delivery", "zigpy/util.py:ListenableMixin.listener_event"), ("registration", "zigpy/util.py:ListenableMixin._add_listener"), ("events", "zigpy/zcl/__init__.py:Cluster.handle_message")],
    ["registered listeners"],
    ["calls of listeners, their order and arguments", "exceptions out of the receive path"],
)

prop(
    "P31", "Opening a radio connection gives a working link or the real cause",
    "Opening a connection to a serial port or a network address (socket:// or tcp://) ends with the transport and protocol of that very connection or with an error: a network connection not established within 5 s fails with a timeout, one that fails earlier fails with the system's own error, a serial port that cannot be opened fails with the cause rather than a wrapper around it, and cancelling the caller cancels the attempt. No failed attempt leaves a connection being opened behind, concurrent attempts do not disturb each other, and the address, port (6638 if none is given), speed and flow control used are the ones asked for.",
    ["schedules", "fault_sequences", "inputs"],
    "every delay, failure and cancellation of the connection being opened, for every mix of concurrent attempts and settings",
    "Tests open one connection on mocks that answer at once; timeouts, late answers and cancellations depend on timing.",
    ["zigpy/serial.py"],
    [("connection", "zigpy/serial.py:create_serial_connection")],
    ["none"],
    ["arguments of the connections opened", "results and exceptions of the calls", "connections still being opened"],
)

prop(
    "P32", "Diagnostic counters never lose a count nor go backwards",
    "A diagnostic counter always says how many events were counted into it: updating it with the radio's raw value adds exactly the events since the previous update, a raw value that wrapped around or started again after a radio restart keeps everything counted before and is counted as one reset, and resetting a counter or a whole group, however deeply nested, changes no value. No history of updates, increments and resets makes a counter go backwards or touches another counter; counting along a path of tags adds one to that name at each level of the path and nowhere else.",
    ["histories", "fault_sequences"],
    "every history of polls, failed polls, wrap-arounds, restarts, resets and increments",
    "Tests check single updates; values depend on the whole history of restarts and resets.",
    ["zigpy/state.py"],
    [("counter", "zigpy/state.py:Counter.update"), ("groups", "zigpy/state.py:CounterGroup")],
    ["counters, counter groups"],
    ["values, reset counts and names of counters"],
)

# -- surfaces outside this family (see DESIGN.md) --
prop(
    "P24", "Wire type codecs round-trip every value",
    "For every ZCL, ZDO and basic wire type, deserializing a serialized value yields the value and consumes exactly its bytes, and too little data raises ValueError.",
    ["inputs"], "every value of every wire type",
    "The value space is unbounded; tests sample it.",
    ["zigpy/types/basic.py", "zigpy/types/struct.py", "zigpy/types/named.py", "zigpy/zcl/foundation.py", "zigpy/zdo/types.py"],
    [("codecs", "zigpy/types/basic.py:int_t")], ["none"], ["serialize/deserialize results"],
)
prop(
    "P25", "Quirk lookup picks the most specific matching definition",
    "For every device signature and registration order, quirk lookup returns the most specific registered definition matching it, or the device unchanged if none does.",
    ["inputs", "programs"], "every signature, set of registered quirks and filter functions",
    "The combination space is unbounded.",
    ["zigpy/quirks/registry.py", "zigpy/quirks/v2/__init__.py"],
    [("lookup", "zigpy/quirks/registry.py:DeviceRegistry.get_device")], ["registry"], ["class of the returned device"],
)
prop(
    "P26", "OTA image containers and validators accept exactly well-formed images",
    "Parsing an OTA file yields an image whose re-serialization is the input, and malformed headers, sizes or firmware containers are rejected.",
    ["inputs"], "every byte string",
    "The input space is unbounded.",
    ["zigpy/ota/image.py", "zigpy/ota/validators.py"],
    [("parser", "zigpy/ota/image.py:parse_ota_image")], ["none"], ["parse result or exception"],
)
prop(
    "P27", "Install codes are accepted only with a valid CRC and hash correctly",
    "An install code of legal length with a correct CRC converts to its AES-MMO link key; any other input converts to nothing.",
    ["inputs"], "every byte string",
    "The input space is unbounded.",
    ["zigpy/util.py"],
    [("conversion", "zigpy/util.py:convert_install_code")], ["none"], ["returned key"],
)

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
