SIM_NOTE = ("Random search over generated scenarios against the real clustering code (through its exported manager), the real SQL layer over the "
            "MySQL wire protocol, and a simulated mysqld/Kubernetes; trusts the simulator's replication semantics (DESIGN.md).")
PROPS = [
 dict(id="C01", title="Acknowledged writes survive every change of primary",
  statement="In a cluster of three or more instances that is not a replica of an external server, every write acknowledged to a client is present on every instance the controller later makes writable, through any history of instance crashes and restarts, network cuts, slow replication, planned switchovers, failovers, scale-outs, API errors and controller crashes. This holds as long as data volumes are lost one at a time, with the cluster healthy and executed data on every replica in between.",
  over=["histories","schedules","fault_sequences","crash_points"],
  quant="all client workloads and fault histories (crash, restart, partition, volume loss of one instance, pod deletion, controller crash at any external call), cluster sizes 3 and 5",
  why="Clustering tests use a mock operator without data, a handful of scripted failovers and no client workload; they cannot see a lost write, and they never inject a crash between two steps.",
  files=["clustering/operations.go","clustering/status.go","clustering/process.go","pkg/dbop/replication.go","pkg/dbop/gtid.go"],
  mech=[("semi-synchronous replication with majority wait count and no fallback","clustering/operations.go configurePrimary, pkg/dbop/replication.go ConfigurePrimary"),
        ("failover stops receivers, picks the most advanced replica, waits for it","clustering/operations.go failover, pkg/dbop/gtid.go FindTopRunner"),
        ("switchover waits for the candidate","clustering/operations.go switchover")],
  test="clu/TestC01", rule="a history is non-trivial if client writes were acknowledged and the recorded primary changed at least once in it", technique="stateful fault-injection PBT on a MySQL/Kubernetes simulator with a data-loss oracle", note=SIM_NOTE),
 dict(id="C02", title="Only the recorded primary is ever made writable; no split brain",
  statement="The controller makes an instance writable only if the MySQLCluster status records it as the current primary at that moment, and by then it has made every other reachable instance without errant transactions read-only. After a new primary has acknowledged a client write, no other instance acknowledges a client write until it becomes the recorded primary itself. An instance of a cluster that replicates from an external server is never made writable.",
  over=["histories","schedules","fault_sequences","crash_points"],
  quant="all fault histories and client schedules, including clients that keep stale connections and old primaries that come back after a network cut",
  why="The mock operator in the tests records calls but has no clients; the tests never combine a network cut with stale clients or interrupt a role change half way.",
  files=["clustering/operations.go","clustering/status.go","pkg/dbop/replication.go"],
  mech=[("read-only before promotion, writable last","clustering/operations.go configure/configureReplica/switchover"),
        ("intermediate primary kept read-only","clustering/operations.go configureIntermediatePrimary")],
  test="clu/TestC02", rule="a history is non-trivial if client writes were acknowledged and the recorded primary changed at least once in it", technique="stateful fault-injection PBT on a MySQL/Kubernetes simulator with single-writer history oracle", note=SIM_NOTE),
 dict(id="C03", title="The reported cluster state is the documented classification",
  statement="The state the controller reports for a cluster (reason of the Initialized, Available and Healthy conditions, their truth values, and the available/healthy metrics) is exactly the documented classification - Offline, Cloning, Restoring, Healthy, Degraded, Failed, Lost or Incomplete - of what the pods and instances show. The reported numbers of ready replicas and errant replicas, in the status and in the metrics, equal the observed ones.",
  over=["inputs","configurations"],
  quant="all combinations of cluster spec, recorded status, pod readiness and per-instance MySQL status for 1, 3 and 5 (and 7) instances",
  why="Tests reach a few dozen hand-picked combinations of a space that is a product over all instances and thresholds.",
  files=["clustering/status.go","clustering/process.go","pkg/dbop/status.go","docs/clustering.md"],
  mech=[("state decision","clustering/status.go DecideState and predicates"),("status update","clustering/process.go updateStatus")],
  test="clu/TestC03", rule="every generated snapshot is a distinct combination of pods, statuses and instance states; non-trivial if its reference state is neither Healthy nor Offline", technique="PBT: generated cluster snapshots, differential against a reference model of docs/clustering.md", note=SIM_NOTE),
 dict(id="C04", title="Planned switchover is safe, complete and happens only when asked",
  statement="When the primary pod of an available cluster is being deleted or is marked for demotion, the primary role moves to a healthy replica (the lowest-numbered one), and only after the old primary was made read-only, its client connections were closed and the target executed everything the old primary had. If a step fails the recorded primary does not change and is made writable again; a completed switchover removes the demotion mark. While the primary runs with its data, the role moves for no other reason and never while replication delay forbids deletion of the primary.",
  over=["histories","inputs","fault_sequences"],
  quant="all cluster states, replica lags, long-running client transactions and failures of any single step",
  why="Tests script three or four switchovers with a mock whose connections, lag and transactions do not exist.",
  files=["clustering/operations.go","clustering/status.go","clustering/process.go"],
  mech=[("switchover","clustering/operations.go switchover"),("candidate choice","clustering/status.go DecideState/needSwitch")],
  test="clu/TestC04", rule="a scenario is non-trivial if the cluster is available, a switchover is requested and no delay forbids it", technique="stateful PBT on the simulator with an ordering oracle over the recorded SQL/API trace", note=SIM_NOTE),
 dict(id="C05", title="Failover only from a dead primary, only with a majority, to the best replica",
  statement="The primary role moves without a switchover request only when the recorded primary does not answer or has lost its data while more than half of the cluster size (rounded down) counts replicas that run, have data and replication configured and no errant transactions. It then goes to a replica that holds every transaction received by any such replica, after all reachable replicas stopped receiving and the chosen one executed everything it received; if replicas diverge or a step fails, the role does not move.",
  over=["inputs","histories","fault_sequences"],
  quant="all combinations of primary state, replica positions (received and executed), errant replicas and failing steps, sizes 3 and 5",
  why="The tests use totally ordered GTID strings on a mock; partially ordered sets, relay logs and failures between the steps are not sampled.",
  files=["clustering/operations.go","clustering/status.go","pkg/dbop/gtid.go"],
  mech=[("failover","clustering/operations.go failover"),("top runner","pkg/dbop/gtid.go FindTopRunner")],
  test="clu/TestC05", rule="a scenario is non-trivial if the recorded primary does not answer or has no data", technique="stateful PBT on the simulator, trace and data oracle against a reference decision", note=SIM_NOTE),
 dict(id="C06", title="Errant replicas are detected, recorded and kept out",
  statement="A replica that has executed a transaction which the running primary has not, other than one written by the primary itself, is listed as errant in the status, carries no role label, does not receive from the primary, is neither cloned nor promoted nor reconfigured, and does not count as healthy. The record is kept while the primary is down, and disappears once the instance is re-initialised or no longer errant.",
  over=["inputs","histories"],
  quant="all executed-transaction sets on primary and replicas, all down/up combinations and histories of re-initialisation",
  why="Tests inject a few fixed errant GTIDs; set arithmetic, multiple UUIDs and the persistence while the primary is down are not swept.",
  files=["clustering/status.go","clustering/operations.go","clustering/process.go"],
  mech=[("errant detection","clustering/status.go GatherStatus, containErrantTransactions"),("exclusion","clustering/operations.go configureReplica, addRoleLabel, failover")],
  test="clu/TestC06", rule="a history is non-trivial if some replica was listed as errant at some time", technique="stateful PBT on the simulator against a GTID set model", note=SIM_NOTE),
 dict(id="C07", title="A writable primary always waits for a majority of replicas",
  statement="From the moment an instance of a three-or-more cluster is made writable, it is configured to acknowledge a commit only after half of the other instances (rounded down from the cluster size) received it, without falling back to asynchronous replication in practice, and every replica the controller connects acknowledges semi-synchronously. This is re-established after restarts, primary changes and scale-out, and replicas of an external server use asynchronous replication instead.",
  over=["histories","configurations","fault_sequences"],
  quant="all cluster sizes, prior variable values, restarts, primary changes and scale-outs at any time",
  why="Tests check a fixed configuration on fresh instances and cannot observe the settings at the moment of becoming writable over a history.",
  files=["clustering/operations.go","pkg/dbop/replication.go"],
  mech=[("primary configuration before writable","clustering/operations.go configure, configurePrimary")],
  test="clu/TestC07", rule="a history is non-trivial if client writes were acknowledged and the recorded primary changed at least once in it", technique="stateful PBT on the simulator; invariant checked at every promotion and after settling", note=SIM_NOTE),
 dict(id="C08", title="Replicas are seeded by cloning and never connected across a gap",
  statement="A fresh replica (no data, no replication set up) joins a primary that has data only by cloning from that primary's address with the cluster's donor credentials and then replicating from it; an instance that has data is never overwritten by a clone. A replica that lacks transactions which the primary has already purged is never set to replicate from it; a cluster whose clone fails retries until it succeeds.",
  over=["inputs","histories","fault_sequences"],
  quant="all executed/purged transaction sets, volume losses and clone failures",
  why="Tests use two or three fixed GTID pairs and a clone that always succeeds.",
  files=["clustering/operations.go"],
  mech=[("clone then replicate","clustering/operations.go configureReplica"),("purged gap check","clustering/operations.go configureReplica SubtractGTID")],
  test="clu/TestC08", rule="a scenario is non-trivial if a fresh replica had to be seeded or a replica was behind a purged gap", technique="stateful PBT on the simulator; oracle on clone requests and replication configuration", note=SIM_NOTE),
 dict(id="C09", title="Service role labels follow the real roles",
  statement="At no time do two pods carry the primary role label, and the label is only ever given to the recorded primary; the replica label is never given to the primary or to an errant replica, and an instance that does not answer gets no label. A pod whose role changed loses its old label and has its client connections closed before it gets the new label, and the primary is made writable only after the labels are right. In a settled cluster every answering non-errant instance carries exactly its role.",
  over=["histories","schedules","fault_sequences"],
  quant="all initial label assignments, role changes, pod recreations, API errors and controller crashes between any two steps",
  why="Tests look at labels after the dust has settled in scripted runs; intermediate label states and orderings are not observed.",
  files=["clustering/operations.go"],
  mech=[("label removal, kill, label add, writable","clustering/operations.go configure, removeRoleLabel, addRoleLabel")],
  test="clu/TestC09", rule="a history is non-trivial if client writes were acknowledged and the recorded primary changed at least once in it", technique="stateful fault-injection PBT; label history invariant observed at every API write", note=SIM_NOTE),
 dict(id="C10", title="Primary pod deletion is prevented exactly while replicas lag too much",
  statement="With a positive deletion-delay limit, the primary pod carries the prevent-delete annotation after every completed check in which some answering replica lags by more than the limit, and no pod carries it after a completed check in which none does; with limit zero it is never added.",
  over=["inputs","histories"],
  quant="all limits, per-replica delays (including unknown), role changes and sequences thereof",
  why="Tests use one limit and two delays.",
  files=["clustering/status.go","clustering/operations.go","clustering/process.go"],
  mech=[("delay detection","clustering/status.go GatherStatus"),("annotation","clustering/operations.go addAnnPreventDelete/removeAnnPreventDelete")],
  test="clu/TestC10", rule="a history is non-trivial if the annotation had to be present at some time", technique="PBT over delay histories on the simulator, reference predicate", note=SIM_NOTE),
 dict(id="C11", title="A cluster always heals once faults stop",
  statement="From any history of faults, once they stop, all pods run and no instance has errant transactions, the cluster becomes Healthy within a bounded number of checks: one writable primary, all other instances read-only and replicating from it, all data equal. From a dead primary with a majority of replicas alive, the cluster becomes available (accepting writes) without the dead instance.",
  over=["histories","fault_sequences","crash_points"],
  quant="all fault histories including API errors and controller crashes at any external call",
  why="Liveness over arbitrary interrupted histories; tests heal from a few scripted situations.",
  files=["clustering/process.go","clustering/operations.go","clustering/status.go"],
  mech=[("level-triggered loop","clustering/process.go do/Start")],
  test="clu/TestC11", rule="a history is non-trivial if client writes were acknowledged and the recorded primary changed at least once in it", technique="stateful fault-injection PBT with bounded-liveness oracle", note=SIM_NOTE),
 dict(id="C12", title="Hands off when offline, restoring, lost, cloning or incomplete pods",
  statement="While a cluster is set offline, is being restored, is lost, is waiting for its initial clone, or has missing pods, the controller changes nothing on any MySQL instance, no role label and no recorded primary; and no combination of present pods, recorded status and cluster spec crashes it. The completion of the initial clone is recorded only when the clone really completed or data exists.",
  over=["inputs","configurations","histories"],
  quant="all combinations of spec, status, present pods and instance states, and histories entering and leaving these states",
  why="Tests cover each state once; they do not combine e.g. offline with missing pods or a delay annotation.",
  files=["clustering/process.go","clustering/status.go","clustering/operations.go"],
  mech=[("state dispatch","clustering/process.go do"),("missing pods","clustering/status.go GatherStatus")],
  test="clu/TestC12", rule="a scenario is non-trivial if the cluster is in one of the hands-off states", technique="PBT over generated snapshots; oracle: no mutating SQL/API call recorded, no panic", note=SIM_NOTE),
 dict(id="C13", title="A replica cluster clones once and follows its external source",
  statement="A cluster with a replication source secret first clones its primary from exactly the host, port and credentials in the secret (retrying after failure, never starting a second clone while one runs or after one completed), then keeps the primary read-only and replicating from that source, with the other instances replicating from the primary. When the secret reference is removed from a cluster that follows its source, the primary executes everything it received, stops replicating and becomes writable.",
  over=["histories","inputs","fault_sequences"],
  quant="all secret contents, clone failures, restarts, primary changes and promotion at any time",
  why="Tests run one clone with a mock agent and one promotion.",
  files=["clustering/operations.go","clustering/status.go"],
  mech=[("initial clone","clustering/operations.go clone/isCloning"),("intermediate primary","clustering/operations.go configureIntermediatePrimary, configurePrimary")],
  test="clu/TestC13", rule="a history is non-trivial if it has at least one fault or workload operation", technique="stateful PBT on the simulator with an external source", note=SIM_NOTE),
 dict(id="C14", title="Maintenance starts, pauses and stops exactly as told",
  statement="A cluster is maintained if and only if it was started and not since stopped or paused; after stop or pause returns and the running check ends nothing more is done for it, an update without start never starts maintenance, and stopping one cluster leaves the others running. A maintained cluster has its metrics; after stop no metric of the cluster remains, after pause its availability metrics are not-a-number, and stopping everything waits for all running checks and nothing can be started afterwards.",
  over=["histories","schedules"],
  quant="all interleavings of start/update/pause/stop calls over several clusters and namespaces with running checks",
  why="Tests start and stop a single cluster in sequence.",
  files=["clustering/manager.go","clustering/process.go"],
  mech=[("process table","clustering/manager.go"),("loop and metrics clean-up","clustering/process.go Start/Pause/Cancel")],
  test="clu/TestC14", rule="a history is non-trivial if at least two clusters were maintained at some time", technique="stateful model-based PBT of the manager against a set model in virtual time", note=SIM_NOTE),
 dict(id="C15", title="Metrics and events tell what happened to a cluster",
  statement="switchover_total and failover_total count exactly the changes of the recorded primary while it was alive and after it had failed, and each such change is announced by one event of that kind naming the new primary; no event announces a change that did not happen. Only if a request to the API server or an instance failed during the change may its count or event be missing. checks_total grows with every periodic check and processing_time_seconds counts the same checks; errors_total grows with every check that fails and only then. The backup metrics (timestamp, elapsed_seconds, dump_bytes, binlog_bytes, workdir_usage_bytes, warnings) equal the record of the last successful backup in the status, and replicas, ready_replicas, errant_replicas, available and healthy equal the cluster's state once it has settled.",
  over=["histories","fault_sequences","inputs"],
  quant="all histories of switchovers, failovers, replica crashes, scale-outs, recorded backups, API outages and single failed requests",
  why="Tests look at single metrics after one scripted change; none compares counters with a history or looks at the backup gauges after a change.",
  files=["clustering/process.go","clustering/operations.go","pkg/metrics/metrics.go","pkg/event/event.go","docs/metrics.md"],
  mech=[("counters and gauges","clustering/process.go Start/updateStatus"),("role changes counted and announced","clustering/process.go do, clustering/operations.go switchover/failover")],
  test="clu/TestC15", rule="the recorded primary changed or a backup was recorded", technique="stateful PBT on the simulator with a counting model of the observed history", note=SIM_NOTE),
 dict(id="D01", title="Killing client connections spares system sessions and nobody else",
  statement="Closing the client connections of an instance kills every connection of every user other than the operator's own system accounts, connections from localhost and MySQL's internal threads, including those of the end-user accounts the operator creates; sessions that vanish meanwhile do not make it fail, any other failure is reported.",
  over=["inputs","schedules"],
  quant="all process lists (users, hosts, ids) and sessions disappearing or failing while being killed",
  why="The only test of this code needs Docker and checks two connections.",
  files=["pkg/dbop/kill.go","pkg/constants/users.go"],
  mech=[("kill filter","pkg/dbop/kill.go KillConnections")],
  test="dbo/TestD01", rule="a process list is non-trivial if it has a client session to close and also a session to spare, one that vanishes or one that cannot be killed", technique="PBT over generated process lists on a wire-level fake server, set oracle", note="Random process lists through the real SQL driver; trusts the fake server."),
 dict(id="D02", title="SQL operations on an instance do what they promise",
  statement="Making an instance read-only, making it writable, configuring it as primary or replica, stopping its receiver, waiting for transactions, comparing transaction sets and reading its status have exactly the documented effect on both supported MySQL versions: the status read equals the instance's state, a wait reports a timeout as such, replication uses the given host, port and credentials with automatic positioning, and any failing statement is reported as an error.",
  over=["inputs","fault_sequences"],
  quant="all instance states, versions, credentials (any characters), transaction sets and a failure of any single statement",
  why="The only tests of this layer need Docker and are not part of the reliable suite.",
  files=["pkg/dbop/replication.go","pkg/dbop/status.go","pkg/dbop/gtid.go","pkg/dbop/operator.go"],
  mech=[("SQL layer","pkg/dbop")],
  test="dbo/TestD02", rule="every case runs one operation against a random instance state; about one in six has a failing statement", technique="PBT: real SQL layer against a wire-level reference MySQL model, with statement fault injection", note="Random states and faults through the real driver; trusts the fake server's SQL semantics."),
 dict(id="B01", title="Backup then restore reproduces the data at the requested time",
  statement="For any history of writes and backups of a cluster, restoring to a point in time after a backup yields exactly the data the cluster had at that point, as far as the stored backups cover it: the newest dump not after the point plus every transaction of the binary log saved for it that was committed before the point (to the second), each applied once and in order, and nothing after it; a saved binary log never silently misses transactions committed since that dump. An optional schema filter restores exactly that schema and an optional user filter exactly those users; after a restore the target is read-only again and the cluster records the restore as done only then.",
  over=["histories","inputs"],
  quant="all write histories, backup times, primary changes between backups, binlog rotations and restore points",
  why="Backup tests use a mock operator with canned files; no data flows through, and only a few restore points are used.",
  files=["backup/backup.go","backup/restore.go","pkg/bkop"],
  mech=[("dump and binlog backup","backup/backup.go"),("restore","backup/restore.go, pkg/bkop/restore.go")],
  test="bk/TestB01", rule="a history is non-trivial if a restore succeeded and a binary log was saved in it", technique="stateful round-trip PBT with fake mysqlsh/mysqlbinlog executables and a data model", note="Random histories through the real backup and restore managers; trusts the fake MySQL tools and the in-process Kubernetes API."),
 dict(id="B02", title="The backup source is a ready, consistent instance",
  statement="A backup is taken from a ready replica when one exists - preferring the instance of the last backup if that is possible without breaking the binary log chain - and from the primary only if no replica qualifies; never from a pod that is not ready or does not exist. The binary log since the last backup is taken only from the instance whose server identity matches the record, and a failing binary log backup is reported as a warning, not hidden and not fatal.",
  over=["inputs","histories"],
  quant="all pod readiness combinations, recorded last-backup states, primary positions and instance identities",
  why="Tests sample a few combinations of three pods.",
  files=["backup/backup.go"],
  mech=[("source choice","backup/backup.go GetUUIDSet/ChoosePod")],
  test="bk/TestB02", rule="instances differ in readiness, identity or role, or there is a record of an earlier backup", technique="PBT over generated cluster states against a reference choice", note="Random search; reference written from docs/backup.md."),
 dict(id="B03", title="The restore uses the newest dump not after the restore point",
  statement="Given any set of stored backups, the restore uses the newest full dump of exactly the source cluster taken at or before the restore point together with the binary log saved for that dump, if any; it never uses a dump taken later, a file of another cluster or namespace, or a binary log belonging to another dump, and fails if there is none.",
  over=["inputs"],
  quant="all sets of stored object names including foreign clusters, partial backups and unrelated files, and all restore points",
  why="Tests use one fixed listing.",
  files=["backup/restore.go","backup/key.go"],
  mech=[("nearest dump","backup/restore.go FindNearestDump"),("object keys","backup/key.go")],
  test="bk/TestB03", rule="several dumps, a binary log without its dump, or objects of other clusters or unrelated files are stored", technique="PBT over generated object listings against a reference choice", note="Random search through the exported function and the restore manager."),
 dict(id="B04", title="Object storage backends store, fetch and list faithfully",
  statement="For each storage backend, what was put under a key is fetched back byte for byte whatever its size, a listing returns exactly the keys that start with the prefix however many there are, fetching a missing key fails, and a failed or interrupted upload or download is reported as an error, never as a shorter object.",
  over=["inputs","fault_sequences"],
  quant="all keys, object sizes across part-size limits, numbers of keys across page limits, and server-side faults",
  why="The bucket tests need MinIO, fake-gcs or Azurite and are not in the reliable suite.",
  files=["pkg/bucket/s3.go","pkg/bucket/gcs.go","pkg/bucket/azure.go"],
  mech=[("S3","pkg/bucket/s3.go"),("GCS","pkg/bucket/gcs.go"),("Azure","pkg/bucket/azure.go")],
  test="bkt/TestB04", rule="an injected fault, several parts, several list pages or a failing reader", technique="PBT against in-process protocol fakes with a map model and fault injection", note="Random search; trusts the protocol fakes."),
 dict(id="B05", title="Backup and restore never report success they did not achieve",
  statement="If any step of a backup or restore fails - reaching the instance, dumping, archiving, uploading, downloading, loading, updating the cluster status - the command fails (except a failing binary log part of a backup, which is recorded as a warning) and the cluster's recorded last backup or restored time does not change. A successful backup records time, sizes, binlog position and source identity that match what was stored.",
  over=["fault_sequences","histories"],
  quant="a fault at every external call of a backup or restore run, transient and permanent",
  why="Tests inject two or three failures through a mock.",
  files=["backup/backup.go","backup/restore.go","cmd/moco-backup/cmd/restore.go"],
  mech=[("error propagation","backup/*.go, cmd/moco-backup/cmd/restore.go")],
  level="fault_enumeration",
  test="bk/TestB05", rule="the injected fault hit an external call", technique="fault enumeration over generated backup/restore runs with in-process fakes", note="Enumerates single faults in random scenarios; trusts fakes."),
 dict(id="W01", title="Invalid MySQLCluster objects and updates are rejected, valid ones accepted",
  statement="Creating or updating a MySQLCluster is admitted exactly if it satisfies the documented rules: name of at most 40 characters (on create), data volume template, a storage request in every volume claim template, positive odd replicas that never decrease, positive server id base, valid log rotation settings, a mysqld container, no reserved container, init container, volume or port names, no change of restore or replication source (other than removing the latter), and volume growth only on expandable storage classes. Defaulting sets a server id base if absent, adds the finalizer and changes nothing else; deletion is always allowed.",
  over=["inputs"],
  quant="all MySQLCluster objects and pairs of old and new object",
  why="Tests check one violation at a time from one template object.",
  files=["api/v1beta2/mysqlcluster_types.go","api/v1beta2/mysqlcluster_webhook.go"],
  mech=[("validation","api/v1beta2/mysqlcluster_types.go validateCreate/validateUpdate"),("admission","api/v1beta2/mysqlcluster_webhook.go")],
  test="adm/TestW01", rule="the object differs from the base template in at least one generated aspect", technique="PBT through the admission HTTP handlers against a reference validator", note="Random objects via AdmissionReview; reference from CRD docs."),
 dict(id="W02", title="BackupPolicy admission protects schedules and policies in use",
  statement="A BackupPolicy is admitted on create and update exactly if its schedule is a valid cron schedule, and its deletion is refused exactly while some MySQLCluster in the same namespace refers to it.",
  over=["inputs"],
  quant="all policies and all sets of clusters in all namespaces",
  why="Tests use three schedules and one referencing cluster.",
  files=["api/v1beta2/backuppolicy_webhook.go","api/v1beta2/backuppolicy_types.go"],
  mech=[("admission","api/v1beta2/backuppolicy_webhook.go")],
  test="adm/TestW02", rule="the policy or at least one generated cluster is relevant to the decision", technique="PBT through the admission HTTP handlers against a reference validator", note="Random objects via AdmissionReview."),
 dict(id="W03", title="A changed StatefulSet never rolls out more than the controller allows",
  statement="Whenever the pod template of a MySQLCluster's StatefulSet changes, admission resets the rollout so that no pod is updated until the partition controller lets it, unless forced by annotation, which removes the partition; an update that changes only the partition is admitted as it is, StatefulSets not owned by a MySQLCluster are not touched, and nothing but the rollout partition is ever changed.",
  over=["inputs","histories"],
  quant="all pairs of old and new StatefulSets, owners, annotations and partitions",
  why="Tests use a few fixed pairs.",
  files=["api/v1beta2/statefulset_webhhok.go"],
  mech=[("partition defaulting","api/v1beta2/statefulset_webhhok.go Default")],
  test="adm/TestW03", rule="old and new StatefulSets differ or an owner/annotation is present", technique="PBT through the admission handler against a reference model", note="Random object pairs."),
 dict(id="R01", title="Rolling update proceeds one pod at a time and only while safe",
  statement="While a rolling update of a cluster's StatefulSet is unfinished and the pod next in line still runs the old revision, the controller lets it be updated (partition lowered by exactly one) only if all pods from the partition upward are already updated and ready with all their containers ready, and the MySQLCluster is healthy - unless the pod next in line is itself not ready, so that an update can repair it. It never raises the partition, never touches a StatefulSet that is not a MySQLCluster's, and never overwrites a partition that was reset by somebody else in between. If conditions stay good the rollout completes.",
  over=["histories","inputs","fault_sequences"],
  quant="all pod revision/readiness states, cluster conditions, partitions, and interleavings with the StatefulSet controller",
  why="Tests run one rollout with healthy pods in envtest.",
  files=["controllers/partition_controller.go"],
  mech=[("partition","controllers/partition_controller.go Reconcile")],
  test="rec/TestR01", rule="a history is non-trivial if the partition was lowered at least twice, or lowered and refused at least once each", technique="stateful PBT with a simulated StatefulSet controller and rollout-safety oracle", note="Random histories on a fake API server."),
 dict(id="R02", title="Reconciliation reaches and keeps the desired objects despite failures",
  statement="From any state of a cluster's managed objects - missing, modified or partially created by an earlier interrupted run - repeated reconciliation produces the same managed objects as a fresh run for the current spec (services, StatefulSet, configuration, credentials copies, service account, certificate, disruption budget, backup and restore jobs with their roles), and then changes nothing more. An error of any single API call only delays this.",
  over=["histories","crash_points","fault_sequences","configurations"],
  quant="all specs, spec changes, deletions or edits of any managed object, and an API failure at any call",
  why="Tests create each object once in a good environment; they do not compare against a fresh run after interruption.",
  files=["controllers/mysqlcluster_controller.go"],
  mech=[("reconcilers","controllers/mysqlcluster_controller.go reconcileV1*")],
  test="rec/TestR02", rule="a case is non-trivial if at least one API fault took effect or a managed object was deleted or edited", technique="stateful PBT: differential of disturbed versus fresh reconciliation on a fake API server, faults at every call", note="Random specs/faults; trusts the controller-runtime fake client for server-side apply."),
 dict(id="R03", title="Reconciling or deleting one cluster never touches another's objects",
  statement="Reconciling, changing or finalising one MySQLCluster never creates, changes or deletes an object that belongs to another cluster, whatever the names and namespaces of the clusters, including names that are prefixes of each other.",
  over=["inputs","histories"],
  quant="all sets of cluster names/namespaces and histories of spec changes and deletions",
  why="Tests run one cluster, or two with unrelated names.",
  files=["controllers/mysqlcluster_controller.go","controllers/certificate.go"],
  mech=[("object naming and label selection","controllers/mysqlcluster_controller.go")],
  test="rec/TestR03", rule="a history is non-trivial if a cluster was reconciled or finalised while another cluster existed", technique="stateful metamorphic PBT: objects of other clusters stay byte-identical", note="Random histories on a fake API server."),
 dict(id="R04", title="Generated MySQL configuration: user settings kept, mandatory settings win",
  statement="The configuration generated for a cluster contains every user option with the user's value unless the operator mandates or forbids that option, contains every mandated option with the mandated value and every default the user did not override, treats dashes, underscores and loose-prefix spellings as the same option, keeps the free-form text in the server section, sizes the buffer pool from the memory request (or else limit), and depends only on its input; table-name case set there is also used to initialise the data. A content change yields a new configuration object name, the same content the same name, and the StatefulSet always refers to an existing one, whatever fails in between.",
  over=["inputs","histories"],
  quant="all user option maps and memory settings; all sequences of configuration changes",
  why="Tests check a handful of fixed maps.",
  files=["pkg/mycnf/generator.go","controllers/mysqlcluster_controller.go"],
  mech=[("generator","pkg/mycnf/generator.go"),("ConfigMap naming","controllers/mysqlcluster_controller.go reconcileV1MyCnf")],
  test="rec/TestR04", rule="a case is non-trivial if a user option collides with a mandated or forbidden one, or the configuration changed at least twice", technique="PBT: generated option maps, parse-back against a reference merge; history check on ConfigMaps", note="Random maps."),
 dict(id="R05", title="Credentials are generated once, copied faithfully and never lost",
  statement="The passwords of a cluster are generated once and never change afterwards through any sequence of reconciliations and failures; the per-namespace copies are restored to match them when altered or deleted, all accounts have distinct random passwords, and the credential files carry exactly these passwords. The copies never expose another cluster's passwords.",
  over=["histories","fault_sequences","crash_points"],
  quant="all histories of reconciliation, tampering, deletion and API failure",
  why="Tests reconcile once or twice without failures.",
  files=["controllers/mysqlcluster_controller.go","pkg/password/password.go"],
  mech=[("secrets","controllers/mysqlcluster_controller.go reconcileV1Secret"),("passwords","pkg/password/password.go")],
  test="rec/TestR05", rule="a history is non-trivial if at least one API fault took effect or a credential copy was altered or lost", technique="stateful PBT with tampering and API faults", note="Random histories on a fake API server."),
 dict(id="R06", title="Volumes grow to the requested size and are never shrunk or recreated in place",
  statement="When the requested size of a volume grows and the storage class allows it, every claim of every instance is resized to it, at the latest once the StatefulSet is no longer being updated; a claim is never resized downward, claims of other clusters are untouched, and the StatefulSet is recreated (without deleting its pods) exactly when an immutable volume template must change. The volume labels and annotations that the operator is configured to propagate are copied from the templates to existing claims.",
  over=["inputs","histories","fault_sequences"],
  quant="all combinations of templates, existing claims, storage classes, replica counts and interrupted runs",
  why="Tests use one or two claims.",
  files=["controllers/pvc.go","controllers/mysqlcluster_controller.go"],
  mech=[("resize","controllers/pvc.go"),("recreation","controllers/mysqlcluster_controller.go recreateStatefulSet")],
  test="rec/TestR06", rule="a history is non-trivial if a claim was grown or at least two kinds of disturbance occurred", technique="stateful PBT on a fake API server against a claim model", note="Random histories."),
 dict(id="R07", title="Pods keep the user's customisation and the operator's guarantees",
  statement="The pod template generated for a cluster contains everything the user specified (containers, init containers, volumes, labels, annotations, resources, overrides) and everything the operator guarantees: mysqld with its ports, probes, lifecycle delay, mounts and distinct server ids, the agent, optional slow-log and exporter sidecars exactly when enabled, init steps in order, security context, and a termination period (300 seconds unless one is given). The services select exactly the pods of their role on the MySQL ports, whatever a service template says, and keep the other settings of the template. At most half of the pods (rounded down) may be disrupted voluntarily at a time, and none while a backup job is running.",
  over=["inputs","configurations"],
  quant="all pod and service templates and feature switches",
  why="Tests look at a few templates.",
  files=["controllers/mysqlcluster_controller.go","controllers/mysql_container.go"],
  mech=[("rendering","controllers/mysqlcluster_controller.go reconcileV1StatefulSet/Service, controllers/mysql_container.go")],
  test="rec/TestR07", rule="a case is non-trivial if the spec changed, overwrites system containers, has a service template or a backup was running", technique="PBT over generated specs with a field-wise oracle", note="Random specs on a fake API server."),
 dict(id="R08", title="Backup and restore jobs run exactly what the spec asks",
  statement="A cluster with a backup policy has a CronJob with the policy's schedule and job settings that backs up that very cluster to the policy's bucket with its credentials and least-privilege role; without a policy neither exists. A cluster with a restore spec gets one restore job for exactly the given source, restore point, bucket, schema and users, until it is restored; no restore job is created or changed afterwards.",
  over=["configurations","histories"],
  quant="all policies, restore specs and sequences of setting, changing and removing them",
  why="Tests create one policy and one restore.",
  files=["controllers/mysqlcluster_controller.go","api/v1beta2/job_types.go"],
  mech=[("jobs","controllers/mysqlcluster_controller.go reconcileV1BackupJob/RestoreJob")],
  test="rec/TestR08", rule="a history is non-trivial if the policy in use changed or a restore is specified", technique="stateful PBT on a fake API server with a field-wise oracle", note="Random histories."),
 dict(id="R09", title="Deleting a cluster cleans up what would be left behind",
  statement="Deleting a MySQLCluster stops its maintenance, removes its credentials and certificate from the operator's namespace and then releases the object; a failure at any step leaves the object in place and the next run completes. Nothing is cleaned while the object is not being deleted.",
  over=["fault_sequences","histories","crash_points"],
  quant="all failures during finalisation and all interleavings with reconciliation",
  why="Tests delete once without failures.",
  files=["controllers/mysqlcluster_controller.go","controllers/certificate.go"],
  mech=[("finalizer","controllers/mysqlcluster_controller.go finalizeV1")],
  test="rec/TestR09", rule="a history is non-trivial if a cluster was finalised in it", level="fault_enumeration", technique="fault enumeration over generated histories on a fake API server", note="Random histories with a failure at every call."),
 dict(id="R10", title="Stop and start annotations pause exactly what they name",
  statement="While reconciliation is stopped by annotation the controller changes none of the cluster's objects, and while clustering is stopped it is not maintained, whatever was running before; the conditions, the stopped metrics and maintenance follow the annotations after every reconciliation, for any sequence of setting and removing them.",
  over=["histories"],
  quant="all sequences of annotation changes, spec changes, reconciliations and status updates by the maintenance loop",
  why="Tests toggle each annotation once.",
  files=["controllers/mysqlcluster_controller.go"],
  mech=[("stop handling","controllers/mysqlcluster_controller.go clusteringStopV1, reconcileV1")],
  test="rec/TestR10", rule="a history is non-trivial if a reconciliation ran while an annotation stopped something", technique="stateful model-based PBT on a fake API server with a recording manager", note="Random histories."),
 dict(id="R11", title="Pod changes wake up the right cluster's maintenance",
  statement="When a pod of a cluster is terminating or marked for demotion, any event of it triggers maintenance of exactly that cluster at once if it is running; maintenance is never started by a pod event, and other pods - of other owners, or neither terminating nor marked - trigger nothing.",
  over=["inputs","histories"],
  quant="all pod objects, owners and clusters",
  why="Tests use two pods.",
  files=["controllers/pod_watcher.go"],
  mech=[("watch","controllers/pod_watcher.go Reconcile")],
  test="rec/TestR11", rule="a case is non-trivial if a pod woke a cluster", technique="PBT with a recording manager against a reference predicate", note="Random objects."),
 dict(id="R12", title="Reconciliation reports its own outcome and the StatefulSet truthfully",
  statement="After each reconciliation condition ReconcileSuccess is True exactly if it succeeded, ReconciliationActive is True, and the generation recorded as reconciled is that of the last reconciliation which succeeded. Condition StatefulSetReady is True exactly if the StatefulSet exists, all its replicas are available, its current and update revisions agree and its status describes the present generation. (If the report itself could not be written, the next reconciliation makes it.) statefulset_recreate_total counts the re-creations of the StatefulSet, statefulset_recreate_errors_total failures to delete it, and volume_resized_total grows only when a claim was resized.",
  over=["histories","inputs","fault_sequences"],
  quant="all StatefulSet statuses, spec changes, volume growth, user errors and a failure or crash at any API call",
  why="Tests see a StatefulSet becoming ready once; they do not fail a reconciliation after a success, nor leave the revision or generation behind.",
  files=["controllers/mysqlcluster_controller.go","controllers/pvc.go"],
  mech=[("status","controllers/mysqlcluster_controller.go updateStatus"),("counters","controllers/mysqlcluster_controller.go reconcileV1StatefulSet, controllers/pvc.go reconcilePVC")],
  test="rec/TestR12", rule="a reconciliation failed or the StatefulSet was not ready", technique="stateful PBT with API fault injection against a reference of the documented conditions", note="Random histories on an in-memory API server."),
 dict(id="R13", title="Every relevant change triggers the right cluster's reconciliation",
  statement="Any creation, change or deletion of a MySQLCluster, of an object it controls (StatefulSet, Service, Secret, ServiceAccount, ConfigMap, PodDisruptionBudget, CronJob, Job, Role, RoleBinding), of its agent certificate in the operator's namespace, of the ConfigMap its mysqlConfigMapName names or of the BackupPolicy its backupPolicyName names leads to a reconciliation of that cluster - of every such cluster in the same namespace, as these fields are at that time - and no event leads to the reconciliation of a cluster it does not concern. Any event of a pod labelled as a MOCO MySQL pod reaches the pod watcher, and any event of such a pod or StatefulSet reaches the rolling-update controller of that StatefulSet, and others do not.",
  over=["histories","inputs"],
  quant="all sequences of create, update and delete events of all watched kinds, all owners, labels, names and references",
  why="Tests run a real API server for a handful of objects and never change a referenced object of several clusters or namespaces.",
  files=["controllers/mysqlcluster_controller.go","controllers/partition_controller.go","controllers/pod_watcher.go"],
  mech=[("watches and indices","controllers/mysqlcluster_controller.go SetupWithManager"),("rollout watches","controllers/partition_controller.go SetupWithManager"),("pod watches","controllers/pod_watcher.go SetupWithManager")],
  test="rec/TestR13", rule="some event concerned at least one cluster", technique="stateful PBT: random event sequences delivered to the running controllers against a reference mapping of events to reconciliations", note="Real controllers and work queues with informers driven by the check; trusts controller-runtime."),
 dict(id="S01", title="The controller program serves all clusters end to end, as its flags say",
  statement="The controller program as a whole - flags, leader election, admission webhooks, caches, reconcilers, pod watcher, rolling updates and one clustering loop per cluster, in one process - brings every created cluster to health and keeps it so: clusters become healthy and writable, a demotion request, pod deletion or crash of the primary moves the primary, changes of configuration, pod template, volume metadata and backup policy reach the objects, invalid objects are refused, and no acknowledged write is lost, also when the process is terminated or killed and restarted, is replaced by a standby holding off until then, or the API server is away for a while. Images, security context, namespace, lease, synchronised keys and the rest are those of the flags, health and metrics endpoints report the state, a terminated process ends, and once nothing changes the controller writes nothing.",
  over=["histories","configurations","crash_points"],
  quant="all flags, sets of clusters and sequences of operations, restarts and outages",
  why="The wiring of the program (flags, manager, webhooks, leader election, concurrency of all parts) has no test outside the end-to-end suite, which needs a Kubernetes cluster.",
  files=["cmd/moco-controller/cmd","controllers","clustering","api/v1beta2","pkg/cert"],
  mech=[("program","cmd/moco-controller/cmd/run.go subMain"),("flags","cmd/moco-controller/cmd/root.go init")],
  test="sys/TestS01", quick_s=40, rule="at least one operation was performed on a healthy cluster", technique="stateful PBT of the real program in a child process against an API server, StatefulSet controller and MySQL simulators", note="Random plans in real time, few tens per quick run; trusts the simulators."),
 dict(id="K01", title="kubectl-moco acts on the named cluster only, and correctly",
  statement="The plug-in works on the named cluster in the chosen namespace (flag, else the context's namespace, else default). switchover marks the pod of the recorded primary for demotion and changes nothing else; it refuses offline and single-instance clusters. stop and start of clustering or reconciliation set to true, or remove, exactly that annotation of that cluster. credential prints exactly the stored password of the requested user, in the requested format, and mysql runs the client in the mysqld container of the requested instance (default: the recorded primary) as the requested user, passing its input, output and failure through. Completion offers exactly the clusters of that namespace with the given prefix. An impossible request or a failed API request makes the command fail without changing anything, and a concurrent change by someone else is never lost.",
  over=["inputs","configurations","fault_sequences"],
  quant="all sets of clusters and pods, namespaces, flags, recorded primaries, concurrent changes and API failures",
  why="The commands have no tests.",
  files=["cmd/kubectl-moco/cmd"],
  mech=[("commands","cmd/kubectl-moco/cmd/*.go")],
  test="kub/TestK01", rule="a command that was possible was executed while other clusters existed", technique="stateful PBT of the command in a child process against an in-memory API server and a reference effect", note="Random command sequences; trusts the in-memory API server."),
 dict(id="P01", title="Agent connections use the newest valid certificates, mutually verified",
  statement="After the certificate files change, new connections in both directions use the newest complete and valid key pair and authorities on disk from the next periodic check on; files that are missing, broken or do not match leave the previous valid ones in use, and no connection ever sees a mixture of old and new. The server side accepts exactly clients with a certificate of a trusted authority whose common name is moco-controller. A request to the agent of an instance reaches only a server with a certificate of a trusted authority for that instance's host name, and is made with the newest client certificate.",
  over=["histories","schedules"],
  quant="all sequences of valid, invalid and partial certificate file updates, all peers, and connections during a reload",
  why="The test reloads one certificate once.",
  files=["pkg/cert/cert.go","clustering/agent.go"],
  mech=[("reloader","pkg/cert/cert.go Reloader"),("agent connections","clustering/agent.go NewAgentFactory")],
  test="crt/TestP01", rule="the certificates were reloaded, or kept because the files were invalid", technique="stateful PBT with real TLS handshakes and gRPC calls against a model of the files", note="Random histories in a scratch directory; gRPC servers on loopback."),
]
NOT_APPLICABLE = []
HOOKS = None
