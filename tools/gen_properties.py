import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
AUTH=["resim/auth/device_code_client.cc","resim/auth/device_code_client.hh","resim/utils/http_response.hh","resim/auth/proto/auth_messages.proto"]
VC=["resim/visualization/client/view_client.cc","resim/visualization/client/view_client.hh"]
V=["resim/visualization/view.cc","resim/visualization/view.hh"]
NOTEST="The only tests of this code (device_code_client_test, view_test) need cpr and real sockets and run one fault-free happy path (plus one zero-second time-out) on one schedule; in the offline suite they are not built at all."
p("C01","Only complete server-issued tokens are ever handed to the user",
 "Whenever asking the authentication client for a token returns normally, the string it returns is byte for byte a non-empty access token that the authorization server issued. This holds whatever network failures, disk errors, full disks, process crashes in the middle of saving the token, or other processes reading, saving and removing the same token file at the same time come before or during the call; otherwise the call reports an error by throwing.",
 ["schedules","crash_points","fault_sequences","histories"],"every interleaving of processes sharing a token path, every crash point inside fetching, saving, loading and removing the token, and every sequence of network and disk faults",
 NOTEST+" No test crashes, fills the disk, or has two processes share the token file.",
 AUTH,[("temp file + rename when saving; empty or unreadable file treated as absent","DeviceCodeClient::save_token/load_token"),("empty access_token rejected","DeviceCodeClient::fetch_token")],
 [("token file","complete token or absent","Config::token_path")],["return value of AuthClientInterface::get_jwt vs. the simulated authorization server's issue log"])
p("C02","Tokens are reused until refreshed, and never after a refresh",
 "Once a client has obtained a token, asking again returns the same token without contacting the server; a later process that finds the saved token uses it without making the user authenticate again, as long as no disk fault prevented saving or reading it. After a refresh has returned, the next token the client hands out is never one it held before the refresh.",
 ["histories","schedules","fault_sequences","crash_points"],"every history of get/refresh/restart by one or more processes sharing the token path, with faults between and during the operations",
 NOTEST+" They cover one get-get, one restart and one refresh, all fault free and single process, with a server that always issues the same token (so an old token cannot be told from a new one).",
 AUTH,[("in-memory token, then file, then fetch","DeviceCodeClient::get_jwt/load_token"),("clear memory and remove file","DeviceCodeClient::refresh")],
 [("token_","cached token","DeviceCodeClient")],["requests seen by the simulated server between invoke and return of get_jwt"])
p("C03","Device-authorization protocol and timing are respected under any clock",
 "Each authentication attempt asks for a device code once with the configured client, scope and audience, shows the user the verification URL before the first poll, and then polls with exactly the device code it was given, waiting at least the server's interval after one answer before the next poll. No poll starts after the code's lifetime has elapsed, and the attempt ends, with a token or an error, within the lifetime plus one poll interval and one request's latency; wall-clock jumps change none of this.",
 ["schedules","fault_sequences","histories","configurations"],"every server-chosen interval and lifetime, request latency, approval time, wall-clock jump and task stall",
 NOTEST+" They use a real clock, interval 0, and cannot jump the clock or observe poll times.",
 AUTH,[("steady-clock deadline and sleep between polls","DeviceCodeClient::fetch_token")],[],["send times and contents of requests at the HTTP seam; standard output"])
p("C04","Once the user approves, the token arrives within one poll interval",
 "If the network is healthy from some moment on and the user approves the device code before it expires with at least one poll left, the pending request for a token succeeds no later than one poll interval plus two request latencies after the approval. Earlier wall-clock jumps, stalls or answers telling the client to keep waiting do not delay it further, except by the 5 s longer interval a slow_down answer may ask for.",
 ["schedules","histories","configurations"],"every approval time, interval, lifetime, latency and clock jump",
 NOTEST+" Liveness bounds in simulated time are not observable with real sleeps.",
 AUTH,[("poll loop exits on first answer without an error","DeviceCodeClient::fetch_token")],[],["return time of get_jwt in simulated time"])
p("C05","A failed authentication leaves the client recoverable",
 "If asking for a token fails for any reason (network, server, disk, denial, time-out), no partial, empty or made-up data the failed attempt left behind is ever returned as a token later, and the very next call made after the faults stop and with an approving user succeeds. A failed or interrupted refresh likewise never leaves the client unable to obtain a token.",
 ["fault_sequences","crash_points","histories"],"every fault or crash at every step of a get or refresh, followed by a fault-free retry in the same process or in a new one",
 NOTEST+" No test continues after a failure.",
 AUTH,[("token assigned only after validation; save after fetch","DeviceCodeClient::fetch_token/load_token")],[],["outcome of get_jwt calls issued after faults stop"])
p("C06","All updates go to one session the server really created",
 "A visualization client sends every update to a session id that the server issued, complete and unmodified, to this client, and keeps using that one session for its whole life; it never creates a second session once it has one and sends no update before it has one. If creating the session fails in any way the caller is told, nothing is sent, and the next attempt tries to create it again.",
 ["schedules","fault_sequences","histories"],"every placement of request loss, response loss, truncated responses, error answers and expired tokens around session creation, with any number of clients at once",
 "view_test (not built offline) talks to a mock server that never fails; no test loses, truncates or rejects the session answer.",
 VC,[("session id stored only after a complete 201 answer","ViewClient::send_view_update")],[("session_id_","current session","ViewClient")],["URLs received by the simulated view server"])
p("C07","Update numbers are unique, increasing, and retries repeat the same update",
 "Within a session every update is sent under its own number, numbers strictly increase in the order the updates are sent and start at 0, and a number is never reused for different content. A retry after an authorization failure repeats the same number and the same bytes; when nothing fails the numbers are exactly 0, 1, 2, and so on with none skipped.",
 ["schedules","fault_sequences","histories"],"every sequence of updates by any number of threads with failures at any request",
 "view_test (not built offline) checks at most a couple of updates on a server that never fails.",
 VC+V,[("counter advanced before sending","ViewClient::send_view_update")],[("update_id_","next update number","ViewClient")],["URL and body of each request at the HTTP seam"])
p("C08","A successful send means the server accepted exactly that content",
 "Sending an update reports success only if the server accepted (answered 201 to) a request carrying exactly that update, and then the link the server returned has been logged for the user. Every other outcome - rejected, unreachable, lost answer, error page - is reported as a failure status or exception, never as success.",
 ["fault_sequences","schedules","histories"],"every fault at every request of a send, for any sequence of sends",
 "view_test (not built offline) tests one forced failure of a mock client interface; lost or truncated answers, error pages and second-attempt failures are not reachable.",
 VC,[("status checks after each request","ViewClient::send_view_update")],[],["returned Status vs. server accept log; log output"])
p("C09","An expired token is recovered from once, and only an expired token",
 "When the server answers 401, the client refreshes its token exactly once and repeats the request exactly once with a newly obtained token different from the rejected one; if that is refused as well the send fails, so each request of a send is made at most twice. Answers other than 401 never discard the stored token or cause a retry.",
 ["fault_sequences","schedules","histories"],"every placement of token expiry and of other failures relative to session creation and updates, with processes sharing the stored token",
 "Tests never expire a token; the 401 paths of the update request and of the second attempt are not exercised with a real token store.",
 VC+AUTH,[("401 branch: refresh and one retry","ViewClient::send_view_update"),("refresh","DeviceCodeClient::refresh")],[],["bearer tokens and answer codes at the HTTP seam; token file"])
p("C10","A VIEW that returns was delivered exactly once; one that throws, at most once",
 "If viewing an object returns normally, the server has accepted exactly one update containing that object. If it throws, the server has accepted it at most once, and no other thread's view is affected: each thread's own return or exception tells the truth about its own object. No object is delivered by, or lost because of, another thread's call.",
 ["schedules","fault_sequences","histories"],"every interleaving of viewing threads and every placement of send failures among them",
 "The multi-thread test (not built offline) uses a client that never fails and samples whatever schedules the OS gives it; the failure test is single threaded.",
 V+VC,[("queueing and sending are one critical section","View::view_object / View::flush")],[("primitives_","objects waiting to be sent","View")],["accepted updates at the simulated view server vs. outcome of each VIEW call"])
p("C11","What the server receives is exactly what was viewed",
 "Every object accepted by the server carries the payload of the right kind with the same values and coordinate frames as the object passed in, the name the user gave (or none), the source file and line of the VIEW statement that produced it, and an id no other object has. This holds when several threads view different objects at once and when requests are retried or fail in between.",
 ["schedules","inputs","fault_sequences","histories"],"every mix of object kinds, values, names and call sites from concurrent threads with failures",
 "Proto round-trip tests run the converters on one object at a time; no offline test inspects what leaves the process, and none does so under concurrency or retries.",
 V+VC+["resim/visualization/proto/view_primitive_to_proto.cc","resim/visualization/proto/view_update_to_proto.cc","resim/visualization/view_primitive.hh","resim/curves/proto/t_curve_to_proto.cc","resim/curves/proto/d_curve_to_proto.cc","resim/transforms/proto/liegroup_to_proto.cc","resim/actor/state/proto/trajectory_to_proto.cc"],
 [("pack","resim/visualization/proto/view_update_to_proto.cc")],[],["request bodies at the HTTP seam decoded by an independent wire-format reader"])
p("C12","Views arrive in the order they were made",
 "The server receives one thread's views in program order, and if one view completed before another was started, on any thread, the first is accepted before the second. Update numbers agree with that order.",
 ["schedules","fault_sequences","histories"],"every interleaving of viewing threads, stalls, and failures in between",
 "Tests do not observe order across threads at the server.",
 V+VC,[("one lock around queue and send","View::flush")],[],["global sequence numbers of VIEW invoke/return events and of server accepts"])
p("C13","Viewing never deadlocks, races or wedges, whatever fails",
 "Any number of threads may view and flush at the same time: no data race occurs, no schedule deadlocks, and every call returns or throws. After any failures, once the network and server are healthy, the next view on every thread succeeds within a bounded number of requests.",
 ["schedules","fault_sequences","histories"],"every interleaving of viewing and flushing threads and every failure sequence that eventually stops",
 "A data race or lock-order problem shows on few schedules; the one threaded test samples a few and injects no failure.",
 V+VC+AUTH,[("std::mutex with scoped guards","View")],[],["scheduler's deadlock and step-bound detectors; vector-clock race detector"])
p("C14","Identifiers are unique across threads, processes and clock jumps",
 "Two calls that generate a new identifier or a new coordinate frame never yield the same one, whether they are on one thread, concurrent threads, or processes started at the same instant, under any wall-clock jump and with a random source that returns short reads, is briefly unavailable or can only be read as a device file. Generated identifiers are never null and survive conversion to text and back.",
 ["schedules","fault_sequences","histories"],"every schedule of generating threads and processes, clock jumps and random-source faults that still deliver entropy",
 "Tests generate a handful of ids on one thread of one process at distinct times.",
 ["resim/utils/uuid.cc","resim/utils/uuid.hh","resim/transforms/frame.hh"],[("libuuid random ids","UUID::new_uuid"),("new_frame","resim/transforms/frame.hh")],[],["set of identifiers produced in a run, over all simulated processes"])
p("C15","The event schedule pops events by time, ties in insertion order, none lost",
 "At every point of any history of scheduling and popping events, the front event is the earliest by time and, among equal times, the first inserted; every event is popped exactly once with its own payload and the size is exact. An insertion that fails (exhausted schedule, no memory) throws and changes nothing, and the remaining events still come out in order.",
 ["histories","fault_sequences","inputs"],"every interleaved history of insertions and pops with ties, extreme times, counter exhaustion and allocation failures at any insertion",
 "The unit test inserts all events and then pops them, on one random sequence, without mixed histories at the limit or failing allocations.",
 ["resim/time/event_schedule.hh"],[("(time, insertion count) priority queue","EventSchedule"),("exhaustion check","EventSchedule::schedule_event")],[("insertion_count_","tie breaker","EventSchedule")],["public API against a sorted-list reference model"])
p("C16","A failed append leaves a curve or trajectory exactly as it was",
 "If adding one control point to a time curve, distance curve or trajectory throws - because memory ran out or the point is not acceptable - the object still has precisely its earlier control points and segments, answers every query as before, and accepts later valid points normally. A point out of time order or in a foreign frame is always refused. Control points and segments always stay in step: n points, n-1 segments, joined end to end.",
 ["fault_sequences","histories"],"every allocation failing in every append of every history of valid and invalid appends",
 "Tests never fail an allocation and check only that an invalid append throws, not the state it leaves.",
 ["resim/curves/t_curve.cc","resim/curves/d_curve.cc","resim/actor/state/trajectory.cc"],[("validation before mutation; roll-back when the second container fails","TCurve::append, DCurve::append")],[("control_pts_/segments_","parallel containers","TCurve, DCurve")],["public accessors after each append against a reference list"])
p("C17","Concurrent readers of a shared object see what a lone reader sees",
 "Any number of threads may at the same time query the same const curve, trajectory, transform, rigid-body state, two-jet, event schedule, status or serialized message: no data race occurs and every thread gets bit-for-bit the results a single thread would get.",
 ["schedules","histories"],"every interleaving of reader threads over shared const objects of every kind the library offers",
 "No test reads one object from two threads.",
 ["resim/curves/t_curve.cc","resim/curves/t_curve_segment.cc","resim/curves/d_curve.cc","resim/curves/two_jet.cc","resim/actor/state/trajectory.cc","resim/actor/state/rigid_body_state.cc","resim/transforms/se3.cc","resim/transforms/so3.cc","resim/transforms/liegroup_exp_diff.cc","resim/transforms/framed_vector.hh"],[("no hidden mutable or static state behind const interfaces","library wide")],[],["results of each reader vs. a sequential run; vector-clock race detector"])
p("C18","Damaged messages are rejected or decode to valid objects, never worse",
 "Decoding a serialized transform, frame, identifier, curve, jet, trajectory or view update that was truncated, bit-flipped, or had pieces dropped, duplicated or swapped in transit either reports an error by throwing or yields an object that satisfies its own invariants. It never crashes, reads out of bounds, hangs, or affects later decodes of intact messages.",
 ["fault_sequences","inputs","histories"],"every position and kind of damage to every kind of message, between decodes of intact ones",
 "Round-trip tests decode only intact messages (plus a few hand-made invalid ones).",
 ["resim/visualization/proto/view_primitive_to_proto.cc","resim/visualization/proto/view_update_to_proto.cc","resim/curves/proto/t_curve_to_proto.cc","resim/curves/proto/d_curve_to_proto.cc","resim/curves/proto/two_jet_to_proto.cc","resim/transforms/proto/liegroup_to_proto.cc","resim/transforms/proto/frame_to_proto.hh","resim/transforms/proto/framed_vector_3_to_proto.cc","resim/utils/proto/uuid_to_proto.cc","resim/actor/state/proto/trajectory_to_proto.cc"],[("assertions in unpack and in the constructors it uses","unpack functions")],[],["outcome and invariants of unpack on damaged bytes"])
p("C19","Independent instances never influence one another",
 "Separate instances of random generators, event schedules, curves and trajectories used by different threads behave exactly as if each were alone: a generator's sample sequence is fixed by its construction and calls alone, the same in every run, on every thread, at every time and under any interleaving. Copies of curves and trajectories are independent of, or safely share immutable state with, their originals: later changes to one are never visible in the other.",
 ["schedules","histories"],"every interleaving of threads each using their own instances, and every history of copy, append and query",
 "Tests use one instance on one thread at a time.",
 ["resim/math/multivariate_gaussian.cc","resim/math/multivariate_gaussian.hh","resim/time/event_schedule.hh","resim/curves/d_curve.cc","resim/curves/t_curve.cc","resim/actor/state/trajectory.cc","resim/testing/random_matrix.hh"],[("per-instance generator state; no static mutable state","library wide"),("shared_ptr to immutable control transforms","DCurve")],[],["results of each instance vs. a sequential single-instance run; race detector"])
def na(id,title,st,files,over=("inputs",)):
    p(id,title,st,list(over),"all inputs","Tests sample a few inputs.",files,[("pure functions","see files")])
na("C20","Transforms form groups: composition, inverse, exp and log agree","For all rotations and rigid transforms, composition is associative, the inverse undoes the transform, exp and log are mutual inverses on their domain, and the adjoint and derivatives of exp are consistent with them, within floating-point tolerance.",["resim/transforms/so3.cc","resim/transforms/se3.cc","resim/transforms/liegroup_exp_diff.cc"])
na("C21","Time curves pass through their control points smoothly","For all valid control points, a time-parametrised curve takes the given pose, velocity and acceleration at each control time, is twice continuously differentiable between, and rejects queries outside its time range.",["resim/curves/t_curve.cc","resim/curves/t_curve_segment.cc","resim/curves/quintic_poly_coeffs.cc"])
na("C22","Distance curves interpolate by arc length","For all control transforms, querying a distance curve at a control point's arc length yields that transform, arc length grows monotonically, and out-of-range lengths are rejected.",["resim/curves/d_curve.cc"])
na("C23","Coordinate frames are enforced when combining framed objects","Composing transforms, vectors or jets whose frames do not match is rejected, and the result of a valid combination carries the right frames; unframed objects combine freely.",["resim/transforms/se3.cc","resim/transforms/so3.cc","resim/transforms/framed_vector.hh","resim/curves/two_jet.cc"])
na("C24","Two-jet and rigid-body kinematics obey the chain rule","Products, inverses and left/right conversions of jets and the velocities and accelerations of rigid-body states equal the derivatives of the corresponding motions.",["resim/curves/two_jet.cc","resim/actor/state/rigid_body_state.cc"])
na("C25","Objects survive serialization unchanged","For every library object that has a message form, unpacking its packed form yields an equal object.",["resim/transforms/proto/liegroup_to_proto.cc","resim/curves/proto/two_jet_to_proto.cc","resim/math/proto"])
na("C26","Interval sampling covers an interval exactly with bounded spacing","Sampling an interval visits both end points, in order, with spacing no larger than requested and equal between samples, for all finite intervals and spacings.",["resim/time/sample_interval.cc"])
na("C27","Time and integer conversions are exact or rejected","Converting between durations, seconds, timestamps and their parts, and comparing or casting integers of different types, is exact whenever representable and otherwise rejected.",["resim/time/timestamp.hh","resim/math/safe_integer_utils.cc"])
na("C28","Status, value-or-status, match and output-parameter types tell the truth","A status records success or the failure's message and origin, a value-or-status holds exactly one of the two and refuses access to the other, and matching a variant visits exactly the active alternative.",["resim/utils/status.hh","resim/utils/status_value.hh","resim/utils/match.hh","resim/utils/inout.hh"])
na("C29","Gaussian samples follow the requested distribution","Samples drawn from a multivariate Gaussian have the requested mean and covariance, and invalid covariances are rejected.",["resim/math/multivariate_gaussian.cc","resim/math/sample_statistics.hh"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
