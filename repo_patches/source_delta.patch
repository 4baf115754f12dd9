From 3b3e805f236ec34a1957c651b2b8850e83846162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:32 +0000
Subject: [PATCH 01/30] fix: set semi-sync again before making the primary
 writable

Configuring the replicas may take long (cloning).  When mysqld of the
primary restarted meanwhile, its semi-sync settings were lost and the
primary was made writable without semi-synchronous replication.
---
 clustering/operations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/clustering/operations.go b/clustering/operations.go
index 37d50ce..39ac187 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -456,6 +456,14 @@ func (p *managerProcess) configure(ctx context.Context, ss *StatusSet) (bool, er
 		op := ss.DBOps[ss.Primary]
 		if pst.GlobalVariables.ReadOnly {
 			redo = true
+			if ss.Cluster.Spec.Replicas > 1 {
+				// Configuring the replicas may take long, for example when cloning data.
+				// If the primary restarted meanwhile, its semi-sync settings are lost,
+				// so set them again before allowing writes.
+				if err := op.ConfigurePrimary(ctx, int(ss.Cluster.Spec.Replicas/2)); err != nil {
+					return false, fmt.Errorf("failed to configure the primary: %w", err)
+				}
+			}
 			logFromContext(ctx).Info("set read_only=0", "instance", ss.Primary)
 			if err := op.SetReadOnly(ctx, false); err != nil {
 				return false, fmt.Errorf("failed to make the primary writable: %w", err)
-- 
2.43.0


From 90c2add55cd35b871a26caed58b755f491f02e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:32 +0000
Subject: [PATCH 02/30] fix: start the SQL thread before waiting for received
 transactions

After a restart mysqld does not start the replication threads.  When the
replica with the most transactions restarted just before a failover, the
failover waited forever for transactions that nothing executes.
---
 pkg/dbop/replication.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkg/dbop/replication.go b/pkg/dbop/replication.go
index 9ee98cd..a0b2193 100644
--- a/pkg/dbop/replication.go
+++ b/pkg/dbop/replication.go
@@ -60,7 +60,18 @@ func (o *operator) StopReplicaIOThread(ctx context.Context) error {
 }
 
 func (o *operator) WaitForGTID(ctx context.Context, gtid string, timeoutSeconds int) error {
-	var err error
+	// The SQL thread is not running after a restart of mysqld because of skip_replica_start.
+	// Without it, the received transactions are never executed.
+	rst, err := o.getReplicaStatus(ctx)
+	if err != nil {
+		return err
+	}
+	if rst != nil && rst.ReplicaSQLRunning != "Yes" {
+		if _, err := o.db.ExecContext(ctx, `START REPLICA SQL_THREAD`); err != nil {
+			return fmt.Errorf("failed to start replica SQL thread: %w", err)
+		}
+	}
+
 	var timeout bool
 	err = o.db.GetContext(ctx, &timeout, `SELECT WAIT_FOR_EXECUTED_GTID_SET(?, ?)`, gtid, timeoutSeconds)
 	if err != nil {
-- 
2.43.0


From 58bbd59c57579011253997c93413dd9c9a92e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:50 +0000
Subject: [PATCH 03/30] fix: handle missing pods of an offline cluster

While a cluster is offline its pods may be missing.  The controller
dereferenced the missing pods, and refused to report the state when
other pods than the last ones were missing.
---
 clustering/operations.go | 8 ++++++++
 clustering/status.go     | 2 +-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index 39ac187..21deb6f 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -354,6 +354,10 @@ func (p *managerProcess) addRoleLabel(ctx context.Context, ss *StatusSet, alive
 func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	for _, pod := range ss.Pods {
+		if pod == nil {
+			// some Pods may be missing while the cluster is offline
+			continue
+		}
 		if _, exists := pod.Annotations[constants.AnnPreventDelete]; exists {
 			newPod := pod.DeepCopy()
 			delete(newPod.Annotations, constants.AnnPreventDelete)
@@ -369,6 +373,10 @@ func (p *managerProcess) removeAnnPreventDelete(ctx context.Context, ss *StatusS
 func (p *managerProcess) addAnnPreventDelete(ctx context.Context, ss *StatusSet) error {
 	log := logFromContext(ctx)
 	ppod := ss.Pods[ss.Primary]
+	if ppod == nil {
+		// some Pods may be missing while the cluster is offline
+		return nil
+	}
 	newPod := ppod.DeepCopy()
 	if newPod.Annotations == nil {
 		newPod.Annotations = make(map[string]string)
diff --git a/clustering/status.go b/clustering/status.go
index 7db5c26..f8005e7 100644
--- a/clustering/status.go
+++ b/clustering/status.go
@@ -180,7 +180,7 @@ func (p *managerProcess) GatherStatus(ctx context.Context) (*StatusSet, error) {
 			return nil, fmt.Errorf("bad pod name: %s", pod.Name)
 		}
 
-		if index < 0 || index >= len(pods.Items) {
+		if index < 0 || index >= len(ss.Pods) {
 			return nil, fmt.Errorf("index out of range: %d", index)
 		}
 		ss.Pods[index] = &pods.Items[i]
-- 
2.43.0


From 1de62a5d952064cf95ebedfa280e7bb1d0ca5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:50 +0000
Subject: [PATCH 04/30] fix: do not record the completion of the initial clone
 while offline

status.cloned was set to true for a cluster that is offline or restoring
before the initial clone from the external source, so that the clone
never happened.
---
 clustering/process.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/clustering/process.go b/clustering/process.go
index 7d9be5e..8a4b946 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -338,7 +338,9 @@ func (p *managerProcess) updateStatus(ctx context.Context, ss *StatusSet) error
 		// the completion of initial cloning is recorded in the status
 		// to make it possible to determine the cloning status even while
 		// the primary instance is down.
-		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning {
+		// it must not be recorded while the cluster is offline or restoring
+		// unless the cloning has actually been completed.
+		if cluster.Spec.ReplicationSourceSecretName != nil && ss.State != StateCloning && !isCloning(ss) {
 			cluster.Status.Cloned = true
 		}
 
-- 
2.43.0


From f2718ee66e5f86d0cad9c886072a898dc26e8cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:50 +0000
Subject: [PATCH 05/30] fix: keep the record of an errant replica that does not
 respond

The errant replica disappeared from the status while its instance was
down, so that a failover after its return could consider it.
---
 clustering/status.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/clustering/status.go b/clustering/status.go
index f8005e7..fef4f3f 100644
--- a/clustering/status.go
+++ b/clustering/status.go
@@ -268,6 +268,11 @@ func (p *managerProcess) GatherStatus(ctx context.Context) (*StatusSet, error) {
 				continue
 			}
 			if ist == nil {
+				// keep the record of an errant replica that does not respond.
+				// It may come back with its errant transactions while the primary is down.
+				if slices.Contains(cluster.Status.ErrantReplicaList, i) {
+					ss.Errants = append(ss.Errants, i)
+				}
 				continue
 			}
 
-- 
2.43.0


From e52e6c3d0c3244130e10c53f3a095276f531261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:18 +0000
Subject: [PATCH 06/30] fix: keep the metrics of a cluster restarted while its
 previous process quits

---
 clustering/process.go | 43 +++++++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/clustering/process.go b/clustering/process.go
index 8a4b946..5b8164b 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -58,6 +58,28 @@ type managerProcess struct {
 	pauseMetrics  func()
 }
 
+// newMetricsSet returns the metrics of the cluster, creating them if they do not exist.
+func newMetricsSet(name types.NamespacedName) metricsSet {
+	return metricsSet{
+		checkCount:         metrics.CheckCountVec.WithLabelValues(name.Name, name.Namespace),
+		errorCount:         metrics.ErrorCountVec.WithLabelValues(name.Name, name.Namespace),
+		available:          metrics.AvailableVec.WithLabelValues(name.Name, name.Namespace),
+		healthy:            metrics.HealthyVec.WithLabelValues(name.Name, name.Namespace),
+		switchoverCount:    metrics.SwitchoverCountVec.WithLabelValues(name.Name, name.Namespace),
+		failoverCount:      metrics.FailoverCountVec.WithLabelValues(name.Name, name.Namespace),
+		replicas:           metrics.TotalReplicasVec.WithLabelValues(name.Name, name.Namespace),
+		readyReplicas:      metrics.ReadyReplicasVec.WithLabelValues(name.Name, name.Namespace),
+		errantReplicas:     metrics.ErrantReplicasVec.WithLabelValues(name.Name, name.Namespace),
+		processingTime:     metrics.ProcessingTimeVec.WithLabelValues(name.Name, name.Namespace),
+		backupTimestamp:    metrics.BackupTimestamp.WithLabelValues(name.Name, name.Namespace),
+		backupElapsed:      metrics.BackupElapsed.WithLabelValues(name.Name, name.Namespace),
+		backupDumpSize:     metrics.BackupDumpSize.WithLabelValues(name.Name, name.Namespace),
+		backupBinlogSize:   metrics.BackupBinlogSize.WithLabelValues(name.Name, name.Namespace),
+		backupWorkDirUsage: metrics.BackupWorkDirUsage.WithLabelValues(name.Name, name.Namespace),
+		backupWarnings:     metrics.BackupWarnings.WithLabelValues(name.Name, name.Namespace),
+	}
+}
+
 func newManagerProcess(c client.Client, r client.Reader, recorder record.EventRecorder, dbf dbop.OperatorFactory, agentf AgentFactory, name types.NamespacedName, cancel func()) *managerProcess {
 	return &managerProcess{
 		client:   c,
@@ -68,24 +90,7 @@ func newManagerProcess(c client.Client, r client.Reader, recorder record.EventRe
 		name:     name,
 		cancel:   cancel,
 		ch:       make(chan string, 1),
-		metrics: metricsSet{
-			checkCount:         metrics.CheckCountVec.WithLabelValues(name.Name, name.Namespace),
-			errorCount:         metrics.ErrorCountVec.WithLabelValues(name.Name, name.Namespace),
-			available:          metrics.AvailableVec.WithLabelValues(name.Name, name.Namespace),
-			healthy:            metrics.HealthyVec.WithLabelValues(name.Name, name.Namespace),
-			switchoverCount:    metrics.SwitchoverCountVec.WithLabelValues(name.Name, name.Namespace),
-			failoverCount:      metrics.FailoverCountVec.WithLabelValues(name.Name, name.Namespace),
-			replicas:           metrics.TotalReplicasVec.WithLabelValues(name.Name, name.Namespace),
-			readyReplicas:      metrics.ReadyReplicasVec.WithLabelValues(name.Name, name.Namespace),
-			errantReplicas:     metrics.ErrantReplicasVec.WithLabelValues(name.Name, name.Namespace),
-			processingTime:     metrics.ProcessingTimeVec.WithLabelValues(name.Name, name.Namespace),
-			backupTimestamp:    metrics.BackupTimestamp.WithLabelValues(name.Name, name.Namespace),
-			backupElapsed:      metrics.BackupElapsed.WithLabelValues(name.Name, name.Namespace),
-			backupDumpSize:     metrics.BackupDumpSize.WithLabelValues(name.Name, name.Namespace),
-			backupBinlogSize:   metrics.BackupBinlogSize.WithLabelValues(name.Name, name.Namespace),
-			backupWorkDirUsage: metrics.BackupWorkDirUsage.WithLabelValues(name.Name, name.Namespace),
-			backupWarnings:     metrics.BackupWarnings.WithLabelValues(name.Name, name.Namespace),
-		},
+		metrics:  newMetricsSet(name),
 		deleteMetrics: func() {
 			metrics.CheckCountVec.DeleteLabelValues(name.Name, name.Namespace)
 			metrics.ErrorCountVec.DeleteLabelValues(name.Name, name.Namespace)
@@ -155,6 +160,8 @@ func (p *managerProcess) Start(ctx context.Context, rootLog logr.Logger, interva
 
 		log := rootLog.WithValues("operationId", "op-"+rand.String(5))
 		log.Info("start operation", "origin", origin)
+		// A previous process for the same cluster may have deleted the metrics when it quit.
+		p.metrics = newMetricsSet(p.name)
 		p.metrics.checkCount.Inc()
 		startTime := time.Now()
 		redo, err := p.do(logr.NewContext(ctx, log))
-- 
2.43.0


From 24081474f5db4f7bd9712ba5a395540425039929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:38 +0000
Subject: [PATCH 07/30] fix: delete the metrics of a paused cluster when it is
 stopped

---
 clustering/manager.go |  4 +++
 clustering/process.go | 57 +++++++++++++++++++++++--------------------
 2 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/clustering/manager.go b/clustering/manager.go
index 9ea069f..3a936f7 100644
--- a/clustering/manager.go
+++ b/clustering/manager.go
@@ -106,7 +106,11 @@ func (m *clusterManager) Stop(name types.NamespacedName) {
 	if ok {
 		p.Cancel()
 		delete(m.processes, key)
+		return
 	}
+
+	// a paused process leaves the metrics
+	deleteMetrics(name)
 }
 
 func (m *clusterManager) StopAll() {
diff --git a/clustering/process.go b/clustering/process.go
index 5b8164b..7cc96d6 100644
--- a/clustering/process.go
+++ b/clustering/process.go
@@ -80,35 +80,38 @@ func newMetricsSet(name types.NamespacedName) metricsSet {
 	}
 }
 
+// deleteMetrics deletes the metrics of the cluster.
+func deleteMetrics(name types.NamespacedName) {
+	metrics.CheckCountVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.ErrorCountVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.AvailableVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.HealthyVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.SwitchoverCountVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.FailoverCountVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.TotalReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.ReadyReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.ErrantReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.ProcessingTimeVec.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupTimestamp.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupElapsed.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupDumpSize.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupBinlogSize.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupWorkDirUsage.DeleteLabelValues(name.Name, name.Namespace)
+	metrics.BackupWarnings.DeleteLabelValues(name.Name, name.Namespace)
+}
+
 func newManagerProcess(c client.Client, r client.Reader, recorder record.EventRecorder, dbf dbop.OperatorFactory, agentf AgentFactory, name types.NamespacedName, cancel func()) *managerProcess {
 	return &managerProcess{
-		client:   c,
-		reader:   r,
-		recorder: recorder,
-		dbf:      dbf,
-		agentf:   agentf,
-		name:     name,
-		cancel:   cancel,
-		ch:       make(chan string, 1),
-		metrics:  newMetricsSet(name),
-		deleteMetrics: func() {
-			metrics.CheckCountVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.ErrorCountVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.AvailableVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.HealthyVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.SwitchoverCountVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.FailoverCountVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.TotalReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.ReadyReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.ErrantReplicasVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.ProcessingTimeVec.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupTimestamp.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupElapsed.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupDumpSize.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupBinlogSize.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupWorkDirUsage.DeleteLabelValues(name.Name, name.Namespace)
-			metrics.BackupWarnings.DeleteLabelValues(name.Name, name.Namespace)
-		},
+		client:        c,
+		reader:        r,
+		recorder:      recorder,
+		dbf:           dbf,
+		agentf:        agentf,
+		name:          name,
+		cancel:        cancel,
+		ch:            make(chan string, 1),
+		metrics:       newMetricsSet(name),
+		deleteMetrics: func() { deleteMetrics(name) },
 		pauseMetrics: func() {
 			metrics.AvailableVec.WithLabelValues(name.Name, name.Namespace).Set(math.NaN())
 			metrics.HealthyVec.WithLabelValues(name.Name, name.Namespace).Set(math.NaN())
-- 
2.43.0


From d279b4f9d427599203c723e06f6a671b16c72f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:27 +0000
Subject: [PATCH 08/30] fix: reserve all the volume and init container names
 used by MOCO

A pod template with a volume named grpc-cert or shared, or with an init
container named copy-moco-init was admitted, but the StatefulSet for it
can never be applied because of the duplicate name.
---
 api/v1beta2/mysqlcluster_types.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index 42f5d91..67ea75d 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -255,7 +255,7 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		}
 
 		switch *container.Name {
-		case constants.InitContainerName:
+		case constants.InitContainerName, constants.CopyInitContainerName:
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), container.Name, "reserved init container name"))
 		}
 	}
@@ -269,7 +269,8 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 		switch *vol.Name {
 		case constants.TmpVolumeName, constants.RunVolumeName, constants.VarLogVolumeName,
 			constants.MySQLConfVolumeName, constants.MySQLInitConfVolumeName,
-			constants.MySQLConfSecretVolumeName, constants.SlowQueryLogAgentConfigVolumeName:
+			constants.MySQLConfSecretVolumeName, constants.GRPCSecretVolumeName,
+			constants.SharedVolumeName, constants.SlowQueryLogAgentConfigVolumeName:
 
 			allErrs = append(allErrs, field.Invalid(pp.Index(i), vol.Name, "reserved volume name"))
 		}
-- 
2.43.0


From 0df579cbcc6a71301d02bb7f6332eadb109d7b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:27 +0000
Subject: [PATCH 09/30] fix: refuse volume claim templates without a storage
 request

ResourceList.Storage() never returns nil, so that a template whose
requests lack storage was admitted.
---
 api/v1beta2/mysqlcluster_types.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/v1beta2/mysqlcluster_types.go b/api/v1beta2/mysqlcluster_types.go
index 67ea75d..97219ac 100644
--- a/api/v1beta2/mysqlcluster_types.go
+++ b/api/v1beta2/mysqlcluster_types.go
@@ -172,7 +172,11 @@ func (s MySQLClusterSpec) validateCreate() (admission.Warnings, field.ErrorList)
 	}
 
 	for _, vc := range s.VolumeClaimTemplates {
-		if vc.Spec.Resources == nil || vc.Spec.Resources.Requests == nil || vc.Spec.Resources.Requests.Storage() == nil {
+		ok := false
+		if vc.Spec.Resources != nil && vc.Spec.Resources.Requests != nil {
+			_, ok = (*vc.Spec.Resources.Requests)[corev1.ResourceStorage]
+		}
+		if !ok {
 			allErrs = append(allErrs, field.Required(pp, fmt.Sprintf("required volume claim template %s storage requests is missing", vc.Name)))
 		}
 	}
-- 
2.43.0


From 1abeab4a368f75aef97218421140075472ae325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:27 +0000
Subject: [PATCH 10/30] fix: do not touch the StatefulSets of other operators

The partition was set for a StatefulSet owned by another kind of MOCO, or
by a MySQLCluster of another API group.
---
 api/v1beta2/statefulset_webhhok.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/api/v1beta2/statefulset_webhhok.go b/api/v1beta2/statefulset_webhhok.go
index d45e02b..f5a24b3 100644
--- a/api/v1beta2/statefulset_webhhok.go
+++ b/api/v1beta2/statefulset_webhhok.go
@@ -9,6 +9,7 @@ import (
 	appsv1 "k8s.io/api/apps/v1"
 	"k8s.io/apimachinery/pkg/api/equality"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
+	"k8s.io/apimachinery/pkg/runtime/schema"
 	ctrl "sigs.k8s.io/controller-runtime"
 	"sigs.k8s.io/controller-runtime/pkg/webhook/admission"
 )
@@ -40,7 +41,9 @@ func (*StatefulSetDefaulter) Default(ctx context.Context, sts *appsv1.StatefulSe
 		return nil
 	}
 
-	if sts.OwnerReferences[0].Kind != "MySQLCluster" && sts.OwnerReferences[0].APIVersion != GroupVersion.String() {
+	ownerGV, err := schema.ParseGroupVersion(sts.OwnerReferences[0].APIVersion)
+	if err != nil || ownerGV.Group != GroupVersion.Group || sts.OwnerReferences[0].Kind != "MySQLCluster" {
+		//nolint:nilerr
 		return nil
 	}
 
-- 
2.43.0


From 6bf9fc04301a75e9d004f5d2a4d5af91c1549503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:27 +0000
Subject: [PATCH 11/30] fix: admit setting the partition of a StatefulSet that
 has none

The webhook panicked when the old StatefulSet had no partition, for
example after a forced rolling update.
---
 api/v1beta2/statefulset_webhhok.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/api/v1beta2/statefulset_webhhok.go b/api/v1beta2/statefulset_webhhok.go
index f5a24b3..a4e9827 100644
--- a/api/v1beta2/statefulset_webhhok.go
+++ b/api/v1beta2/statefulset_webhhok.go
@@ -68,8 +68,12 @@ func (*StatefulSetDefaulter) Default(ctx context.Context, sts *appsv1.StatefulSe
 		return fmt.Errorf("failed to read old statefulset: %w", err)
 	}
 
+	// The old one has no partition if it was rolled out forcefully.
 	partition := *sts.Spec.UpdateStrategy.RollingUpdate.Partition
-	oldPartition := *oldSts.Spec.UpdateStrategy.RollingUpdate.Partition
+	oldPartition := int32(0)
+	if ru := oldSts.Spec.UpdateStrategy.RollingUpdate; ru != nil && ru.Partition != nil {
+		oldPartition = *ru.Partition
+	}
 
 	newSts := sts.DeepCopy()
 	newSts.Spec.UpdateStrategy = oldSts.Spec.UpdateStrategy
-- 
2.43.0


From 1895e1304d6fa05689ef22ff5f4a517e9eef4359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:56 +0000
Subject: [PATCH 12/30] fix: do not record a generation as reconciled after a
 failed reconciliation

---
 controllers/mysqlcluster_controller.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 6cc67d2..c87c85c 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1752,8 +1752,12 @@ func (r *MySQLClusterReconciler) updateStatus(ctx context.Context, cluster *moco
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
-	cluster.Status.ReconcileInfo.Generation = cluster.Generation
-	cluster.Status.ReconcileInfo.ReconcileVersion = 1
+	// Record the generation only when it has been reconciled completely.
+	// Otherwise, the rest would be handled as if it had already been applied.
+	if reconcileErr == nil {
+		cluster.Status.ReconcileInfo.Generation = cluster.Generation
+		cluster.Status.ReconcileInfo.ReconcileVersion = 1
+	}
 
 	stsReady := metav1.ConditionFalse
 	reason := "StatefulSetNotReady"
-- 
2.43.0


From 7ebc6d4254ba9e22daac4e515e235aacc3bc8258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:56 +0000
Subject: [PATCH 13/30] fix: repair the role and role binding of the backup job
 even if the CronJob is unchanged

---
 controllers/mysqlcluster_controller.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index c87c85c..f7090dc 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1324,14 +1324,12 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 
 	key := client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}
 	orig, err := apply(ctx, r.Client, key, cronJob, batchv1ac.ExtractCronJob)
-	if err != nil {
-		if errors.Is(err, ErrApplyConfigurationNotChanged) {
-			return nil
-		}
+	notChanged := errors.Is(err, ErrApplyConfigurationNotChanged)
+	if err != nil && !notChanged {
 		return fmt.Errorf("failed to reconcile %s CronJob for backup: %w", cronJobName, err)
 	}
 
-	if debugController {
+	if debugController && !notChanged {
 		var updated batchv1.CronJob
 
 		if err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cronJobName}, &updated); err != nil && !apierrors.IsNotFound(err) {
@@ -1343,7 +1341,9 @@ func (r *MySQLClusterReconciler) reconcileV1BackupJob(ctx context.Context, clust
 		}
 	}
 
-	log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	if !notChanged {
+		log.Info("reconciled CronJob for backup", "cronJobName", cronJobName)
+	}
 
 	if err := r.reconcileV1BackupJobRole(ctx, cluster); err != nil {
 		return err
-- 
2.43.0


From 43cde035bc7ace5a2c6037de73a43af7574cbc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:09 +0000
Subject: [PATCH 14/30] fix: pause clustering and set the metrics whenever they
 are stopped

The early return for an already false condition left the clustering process
running after stop, start and stop again, and lost the metrics when the
controller was restarted.
---
 controllers/mysqlcluster_controller.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index f7090dc..450b22d 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1830,12 +1830,15 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
+	// The condition may be left from the previous stop.  The clustering process may have been
+	// started since then, and the metrics are lost when the controller is restarted.
+	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
+	metrics.ClusteringStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
+
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionClusteringActive) {
 		return nil
 	}
 
-	r.ClusterManager.Pause(types.NamespacedName{Namespace: cluster.Namespace, Name: cluster.Name})
-
 	for _, cond := range cluster.Status.Conditions {
 		if cond.Type == mocov1beta2.ConditionAvailable || cond.Type == mocov1beta2.ConditionHealthy {
 			cond.Status = metav1.ConditionUnknown
@@ -1859,8 +1862,6 @@ func (r *MySQLClusterReconciler) clusteringStopV1(ctx context.Context, cluster *
 		log.Info("update status successfully")
 	}
 
-	metrics.ClusteringStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
-
 	return nil
 }
 
@@ -1868,6 +1869,9 @@ func (r *MySQLClusterReconciler) reconciliationStopV1(ctx context.Context, clust
 	log := crlog.FromContext(ctx)
 	orig := cluster.DeepCopy()
 
+	// The metrics are lost when the controller is restarted.
+	metrics.ReconciliationStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
+
 	if meta.IsStatusConditionFalse(cluster.Status.Conditions, mocov1beta2.ConditionReconciliationActive) {
 		return nil
 	}
@@ -1888,8 +1892,6 @@ func (r *MySQLClusterReconciler) reconciliationStopV1(ctx context.Context, clust
 		log.Info("update status successfully")
 	}
 
-	metrics.ReconciliationStoppedVec.WithLabelValues(cluster.Name, cluster.Namespace).Set(1)
-
 	return nil
 }
 
-- 
2.43.0


From e54f5d94dbcf6286790abf066110b7e413e00cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:09 +0000
Subject: [PATCH 15/30] fix: do not delete slow log ConfigMaps of clusters
 whose name starts with the same text

---
 controllers/mysqlcluster_controller.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index 450b22d..fe6b959 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -559,7 +559,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 			return nil, fmt.Errorf("failed to reconcile configmap %s/%s for slow logs: %w", cluster.Namespace, cmName, err)
 		}
 
-		if err := r.cleanupOldConfigMaps(ctx, cluster, prefix, cmName); err != nil {
+		if err := r.cleanupOldConfigMaps(ctx, cluster, prefix+".", cmName); err != nil {
 			return nil, err
 		}
 
@@ -571,7 +571,7 @@ func (r *MySQLClusterReconciler) reconcileV1FluentBitConfigMap(ctx context.Conte
 			return nil, err
 		}
 		for _, old := range cms.Items {
-			if strings.HasPrefix(old.Name, prefix) {
+			if strings.HasPrefix(old.Name, prefix+".") {
 				if err := r.Delete(ctx, &old); err != nil && !apierrors.IsNotFound(err) {
 					return nil, fmt.Errorf("failed to delete old configmap %s/%s: %w", old.Namespace, old.Name, err)
 				}
-- 
2.43.0


From 4a01eff31bf9bb03f0831a1b53a15fb8f9e30073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:04 +0000
Subject: [PATCH 16/30] fix: do not overwrite a partition that has been changed
 concurrently

The new partition is calculated from the read one. When the partition was
reset for a new template in the meantime, it was lowered by more than one.
---
 controllers/partition_controller.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/controllers/partition_controller.go b/controllers/partition_controller.go
index 17566ce..d078b48 100644
--- a/controllers/partition_controller.go
+++ b/controllers/partition_controller.go
@@ -302,7 +302,9 @@ func (r *StatefulSetPartitionReconciler) patchNewPartition(ctx context.Context,
 		return nil
 	}
 
-	patch := client.MergeFrom(sts.DeepCopy())
+	// The partition may have been reset in the meantime.
+	// In such a case, the patch must fail because the new one was not calculated from the current one.
+	patch := client.MergeFromWithOptions(sts.DeepCopy(), client.MergeFromWithOptimisticLock{})
 	sts.Spec.UpdateStrategy.RollingUpdate.Partition = &newPartition
 
 	if err := r.Patch(ctx, sts, patch); err != nil {
-- 
2.43.0


From 44f5389c7c08d6a4c570b41f6e9201ac99517243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:46 +0000
Subject: [PATCH 17/30] fix: do not panic when synchronizing annotations to a
 PVC that has none

---
 controllers/pvc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index a826ca4..23605d6 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -308,6 +308,9 @@ func (r *MySQLClusterReconciler) syncPVCLabelAndAnnotationValues(ctx context.Con
 		for _, key := range r.PVCSyncAnnotationKeys {
 			if value, ok := template.Annotations[key]; ok {
 				if pvc.Annotations[key] != value {
+					if pvc.Annotations == nil {
+						pvc.Annotations = make(map[string]string)
+					}
 					pvc.Annotations[key] = value
 					isUpdate = true
 				}
-- 
2.43.0


From 17cccb0ff429d85654fbb1de0672c69164e7653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:45 +0000
Subject: [PATCH 18/30] fix: do not panic when resizing a PVC without a storage
 class

---
 controllers/pvc.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index 23605d6..87b45d7 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -15,6 +15,7 @@ import (
 	"k8s.io/apimachinery/pkg/api/resource"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/types"
+	"k8s.io/utils/ptr"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 	crlog "sigs.k8s.io/controller-runtime/pkg/log"
 )
@@ -131,7 +132,7 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 			return resizedPVC, fmt.Errorf("failed to check if volume expansion is supported: %w", err)
 		}
 		if !supported {
-			log.Info("StorageClass used by PVC does not support volume expansion, skipped", "storageClassName", *pvc.Spec.StorageClassName, "pvcName", pvc.Name)
+			log.Info("StorageClass used by PVC does not support volume expansion, skipped", "storageClassName", ptr.Deref(pvc.Spec.StorageClassName, ""), "pvcName", pvc.Name)
 			continue
 		}
 
-- 
2.43.0


From 1dabc43417b99638163dbdbc108869023430291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:50 +0000
Subject: [PATCH 19/30] fix: resize PVCs whose size was changed while the
 StatefulSet was updated or offline

The StatefulSet was recreated with the new size without resizing the PVCs,
and since then they were considered to have been resized.
---
 controllers/pvc.go | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/controllers/pvc.go b/controllers/pvc.go
index 87b45d7..cd98ef1 100644
--- a/controllers/pvc.go
+++ b/controllers/pvc.go
@@ -38,8 +38,6 @@ var (
 // The deletion and recreation of the StatefulSet are managed by reconcileV1StatefulSet().
 // Therefore, this function should be called before reconcileV1StatefulSet().
 func (r *MySQLClusterReconciler) reconcilePVC(ctx context.Context, cluster *mocov1beta2.MySQLCluster) error {
-	log := crlog.FromContext(ctx)
-
 	var sts appsv1.StatefulSet
 	err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cluster.PrefixedName()}, &sts)
 	if err != nil && !apierrors.IsNotFound(err) {
@@ -56,12 +54,10 @@ func (r *MySQLClusterReconciler) reconcilePVC(ctx context.Context, cluster *moco
 		return nil
 	}
 
-	resizeTarget, ok := r.needResizePVC(cluster, &sts)
-	if !ok {
-		return nil
-	}
-
-	log.Info("Starting PVC resize")
+	// The StatefulSet may have been recreated with the new size before the PVCs are resized,
+	// for example, when the size was changed while the StatefulSet was being updated or offline.
+	// Therefore, PVCs smaller than the requested size are resized even if there is no resizeTarget.
+	resizeTarget, _ := r.needResizePVC(cluster, &sts)
 
 	resized, err := r.resizePVCs(ctx, cluster, &sts, resizeTarget)
 	if err != nil {
@@ -90,18 +86,13 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 		newSizes[pvc.Name] = newSize
 	}
 
-	var replicas int32
-	if sts.Spec.Replicas == nil {
-		replicas = 1
-	} else {
-		replicas = *sts.Spec.Replicas
-	}
-	pvcsToKeep := make(map[string]*resource.Quantity, replicas*int32(len(resizeTarget)))
-	for _, pvc := range resizeTarget {
+	// When the cluster is offline, the replicas of the StatefulSet is zero.
+	replicas := max(ptr.Deref(sts.Spec.Replicas, 1), cluster.Spec.Replicas)
+	pvcsToKeep := make(map[string]string, int(replicas)*len(newSizes))
+	for tmplName := range newSizes {
 		for i := int32(0); i < replicas; i++ {
-			name := fmt.Sprintf("%s-%s-%d", pvc.Name, sts.Name, i)
-			newSize := newSizes[pvc.Name]
-			pvcsToKeep[name] = newSize
+			name := fmt.Sprintf("%s-%s-%d", tmplName, sts.Name, i)
+			pvcsToKeep[name] = tmplName
 		}
 	}
 
@@ -122,10 +113,15 @@ func (r *MySQLClusterReconciler) resizePVCs(ctx context.Context, cluster *mocov1
 	resizedPVC := make(map[string]corev1.PersistentVolumeClaim)
 
 	for _, pvc := range pvcs.Items {
-		newSize, ok := pvcsToKeep[pvc.Name]
+		tmplName, ok := pvcsToKeep[pvc.Name]
 		if !ok {
 			continue
 		}
+		newSize := newSizes[tmplName]
+
+		if _, ok := resizeTarget[tmplName]; !ok && pvc.Spec.Resources.Requests.Storage().Cmp(*newSize) >= 0 {
+			continue
+		}
 
 		supported, err := r.isVolumeExpansionSupported(ctx, &pvc)
 		if err != nil {
-- 
2.43.0


From 4f402fe99e84eb5e324e0610082ef715335d5fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:20 +0000
Subject: [PATCH 20/30] fix: generate the same my.cnf for the same user
 settings even if an option is given in two spellings

---
 pkg/mycnf/generator.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index 2dfe93d..ccec96f 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -229,12 +229,20 @@ func mergeSection(conf1, conf2 map[string]string) map[string]string {
 		conf[nk] = v
 	}
 
-	for k, v := range conf2 {
+	// conf2 may contain different spellings of the same option.
+	// Process them in a fixed order to generate reproducible my.cnf
+	keys := make([]string, 0, len(conf2))
+	for k := range conf2 {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+
+	for _, k := range keys {
 		nk := normalizeConfKey(k)
 		for _, kk := range listConfKeyVariations(nk) {
 			delete(conf, kk)
 		}
-		conf[nk] = v
+		conf[nk] = conf2[k]
 	}
 
 	return conf
-- 
2.43.0


From e71d3bd158a14c9d84c5f5c78a7008120fd0834d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:39 +0000
Subject: [PATCH 21/30] fix: remove log_bin and the like from my.cnf even if
 they have the loose prefix

---
 pkg/mycnf/generator.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index ccec96f..b382a1f 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -165,10 +165,11 @@ func Generate(userConf map[string]string, memTotal int64) string {
 	}
 
 	delete(mysqldConf, opaqueKey)
-	delete(mysqldConf, "log_bin")
-	delete(mysqldConf, "log_error")
-	delete(mysqldConf, "skip_log_bin")
-	delete(mysqldConf, "disable_log_bin")
+	for _, k := range []string{"log_bin", "log_error", "skip_log_bin", "disable_log_bin"} {
+		for _, kk := range listConfKeyVariations(k) {
+			delete(mysqldConf, kk)
+		}
+	}
 
 	conf := make(map[string]map[string]string)
 	conf["mysqld"] = mysqldConf
-- 
2.43.0


From b81a580c04ae7a63d2fccdb6eb4f6133305e51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:08 +0000
Subject: [PATCH 22/30] fix: keep the ConfigMap that the StatefulSet uses when
 cleaning up old ones

---
 controllers/mysqlcluster_controller.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index fe6b959..aedce9e 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -590,8 +590,24 @@ func (r *MySQLClusterReconciler) cleanupOldConfigMaps(ctx context.Context, clust
 		return err
 	}
 
-	// Sort ConfigMaps by creation timestamp in descending order
+	// The ConfigMap used by the StatefulSet must be kept until the StatefulSet is updated.
+	inUse := make(map[string]bool)
+	sts := &appsv1.StatefulSet{}
+	err := r.Get(ctx, client.ObjectKey{Namespace: cluster.Namespace, Name: cluster.PrefixedName()}, sts)
+	if err != nil && !apierrors.IsNotFound(err) {
+		return err
+	}
+	for _, v := range sts.Spec.Template.Spec.Volumes {
+		if v.ConfigMap != nil {
+			inUse[v.ConfigMap.Name] = true
+		}
+	}
+
+	// Sort ConfigMaps by creation timestamp in descending order, after the ones in use.
 	sort.Slice(cms.Items, func(i, j int) bool {
+		if inUse[cms.Items[i].Name] != inUse[cms.Items[j].Name] {
+			return inUse[cms.Items[i].Name]
+		}
 		return cms.Items[i].CreationTimestamp.After(cms.Items[j].CreationTimestamp.Time)
 	})
 
@@ -602,7 +618,7 @@ func (r *MySQLClusterReconciler) cleanupOldConfigMaps(ctx context.Context, clust
 		}
 		oldConfigCount++
 		log.Info("found old configmap", "configMapName", old.Name, "count", oldConfigCount, "created", old.CreationTimestamp.Time)
-		if oldConfigCount > r.MySQLConfigMapHistoryLimit-1 {
+		if oldConfigCount > r.MySQLConfigMapHistoryLimit-1 && !inUse[old.Name] {
 			if err := r.Delete(ctx, &old); err != nil {
 				return fmt.Errorf("failed to delete old configmap %s/%s: %w", old.Namespace, old.Name, err)
 			}
-- 
2.43.0


From 4bf2291f1bc20905b29e88c6e45bfd32f7a71665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:34 +0000
Subject: [PATCH 23/30] fix: initialize instances with lower_case_table_names
 in any spelling

---
 controllers/mysql_container.go |  3 ++-
 pkg/mycnf/generator.go         | 11 +++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/controllers/mysql_container.go b/controllers/mysql_container.go
index 8bf48bf..806cc0e 100644
--- a/controllers/mysql_container.go
+++ b/controllers/mysql_container.go
@@ -8,6 +8,7 @@ import (
 
 	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
 	"github.com/cybozu-go/moco/pkg/constants"
+	"github.com/cybozu-go/moco/pkg/mycnf"
 	corev1 "k8s.io/api/core/v1"
 	"k8s.io/apimachinery/pkg/api/resource"
 	"k8s.io/apimachinery/pkg/util/intstr"
@@ -427,7 +428,7 @@ func (r *MySQLClusterReconciler) getEnableLowerCaseTableNamesFromConf(ctx contex
 		return "", false, fmt.Errorf("failed to get user defined mysql conf configmap: %w", err)
 	}
 
-	v, ok := cm.Data[constants.LowerCaseTableNamesConfKey]
+	v, ok := mycnf.Lookup(cm.Data, constants.LowerCaseTableNamesConfKey)
 	return v, ok, nil
 }
 
diff --git a/pkg/mycnf/generator.go b/pkg/mycnf/generator.go
index b382a1f..f3b9d62 100644
--- a/pkg/mycnf/generator.go
+++ b/pkg/mycnf/generator.go
@@ -222,6 +222,17 @@ func Generate(userConf map[string]string, memTotal int64) string {
 	return b.String()
 }
 
+// Lookup returns the value of an option in `userConf` regardless of its spelling.
+func Lookup(userConf map[string]string, key string) (string, bool) {
+	conf := mergeSection(nil, userConf)
+	for _, k := range listConfKeyVariations(normalizeConfKey(key)) {
+		if v, ok := conf[k]; ok {
+			return v, true
+		}
+	}
+	return "", false
+}
+
 func mergeSection(conf1, conf2 map[string]string) map[string]string {
 	conf := make(map[string]string)
 
-- 
2.43.0


From 29cd79b97cff6a5342eba96301886689093e837c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:18 +0000
Subject: [PATCH 24/30] fix: do not merge the selector of a service template
 into that of the service

---
 controllers/mysqlcluster_controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index aedce9e..b482209 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -697,6 +697,8 @@ func (r *MySQLClusterReconciler) reconcileV1Service1(ctx context.Context, cluste
 			WithPublishNotReadyAddresses(true)
 	}
 
+	// The selector can not be customized.
+	svc.Spec.Selector = nil
 	svc.Spec.WithSelector(selector)
 
 	portExists := func(portName string) (int, bool) {
-- 
2.43.0


From 0a8d8b086f37cf29fb72f9ab4295a81c952427f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:55 +0000
Subject: [PATCH 25/30] fix: apply the affinity of jobConfig to the restore job

---
 controllers/mysqlcluster_controller.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/controllers/mysqlcluster_controller.go b/controllers/mysqlcluster_controller.go
index b482209..dd232b9 100644
--- a/controllers/mysqlcluster_controller.go
+++ b/controllers/mysqlcluster_controller.go
@@ -1591,6 +1591,10 @@ func (r *MySQLClusterReconciler) reconcileV1RestoreJob(ctx context.Context, clus
 				),
 			)
 
+		if jc.Affinity != nil {
+			job.Spec.Template.Spec.WithAffinity((*corev1ac.AffinityApplyConfiguration)(jc.Affinity.DeepCopy()))
+		}
+
 		if err := setControllerReference(cluster, job, r.Scheme); err != nil {
 			return fmt.Errorf("failed to set ownerReference to Job %s/%s: %w", cluster.Namespace, jobName, err)
 		}
-- 
2.43.0


From 31cad11445aebc37a8a1e9aa512ebab2bfa9ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:57 +0000
Subject: [PATCH 26/30] fix: do not save binary logs that miss transactions
 since the last backup

---
 pkg/bkop/backup.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/bkop/backup.go b/pkg/bkop/backup.go
index f35553c..4e22afa 100644
--- a/pkg/bkop/backup.go
+++ b/pkg/bkop/backup.go
@@ -2,6 +2,7 @@ package bkop
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"net"
 	"os"
@@ -45,6 +46,15 @@ func (o operator) GetBinlogs(ctx context.Context) ([]string, error) {
 }
 
 func (o operator) DumpBinlog(ctx context.Context, dir, binlogName, filterGTID string) error {
+	// mysqlbinlog does not notice transactions missing before binlogName.
+	var complete bool
+	if err := o.db.GetContext(ctx, &complete, `SELECT GTID_SUBSET(@@gtid_purged, ?)`, filterGTID); err != nil {
+		return fmt.Errorf("failed to check gtid_purged: %w", err)
+	}
+	if !complete {
+		return errors.New("some transactions since the last backup have been purged from the binary logs")
+	}
+
 	args := []string{
 		"-h", o.host,
 		"--port", fmt.Sprint(o.port),
-- 
2.43.0


From 25ee52a9195fa624822007c6749d11503fa7ca42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:47 +0000
Subject: [PATCH 27/30] fix: restore a dump with the binary log of the same
 backup only

---
 backup/restore.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/backup/restore.go b/backup/restore.go
index 9489f72..e45b48b 100644
--- a/backup/restore.go
+++ b/backup/restore.go
@@ -9,7 +9,6 @@ import (
 	"path"
 	"path/filepath"
 	"sort"
-	"strings"
 	"time"
 
 	mocov1beta2 "github.com/cybozu-go/moco/api/v1beta2"
@@ -204,11 +203,12 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 	sort.Strings(keys)
 
 	var nearest time.Time
-	var nearestDump, nearestBinlog string
+	var nearestDump string
+	binlogs := make(map[string]string) // from the directory of a backup to its binlog file
 
 	for _, key := range keys {
-		isBinlog := strings.HasSuffix(key, constants.BinlogFilename)
-		isDump := strings.HasSuffix(key, constants.DumpFilename)
+		isBinlog := path.Base(key) == constants.BinlogFilename
+		isDump := path.Base(key) == constants.DumpFilename
 		if !isBinlog && !isDump {
 			rm.log.Info("skipping garbage", "key", key)
 			continue
@@ -224,18 +224,15 @@ func (rm *RestoreManager) FindNearestDump(keys []string) (string, string, time.T
 		}
 
 		if isBinlog {
-			nearestBinlog = key
+			binlogs[path.Dir(key)] = key
 			continue
 		}
 
 		nearestDump = key
 		nearest = bkt
-		if path.Dir(nearestDump) != path.Dir(nearestBinlog) {
-			nearestBinlog = ""
-		}
 	}
 
-	return nearestDump, nearestBinlog, nearest
+	return nearestDump, binlogs[path.Dir(nearestDump)], nearest
 }
 
 func (rm *RestoreManager) loadDump(ctx context.Context, op bkop.Operator, key string) error {
-- 
2.43.0


From e936b7ae77ba4b1ad669a9ba000e6d2886261572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:47 +0000
Subject: [PATCH 28/30] fix: fail the restore job when MySQL stays unreachable

---
 cmd/moco-backup/cmd/restore.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmd/moco-backup/cmd/restore.go b/cmd/moco-backup/cmd/restore.go
index 5d305c5..bbbc7bd 100644
--- a/cmd/moco-backup/cmd/restore.go
+++ b/cmd/moco-backup/cmd/restore.go
@@ -28,8 +28,10 @@ USERS:             The target users to restore.  If USERS is empty, all users ar
 	Args: cobra.ExactArgs(8),
 	RunE: func(cmd *cobra.Command, args []string) error {
 		maxRetry := 3
+		var err error
 		for range maxRetry {
-			if err := runRestore(cmd, args); err != backup.ErrBadConnection {
+			err = runRestore(cmd, args)
+			if err != backup.ErrBadConnection {
 				return err
 			}
 
@@ -37,7 +39,7 @@ USERS:             The target users to restore.  If USERS is empty, all users ar
 			time.Sleep(1 * time.Second)
 		}
 
-		return nil
+		return err
 	},
 }
 
-- 
2.43.0


From 1d0bb7749a698fab32898f7b535aa9d2c265b92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:09:33 +0000
Subject: [PATCH 29/30] fix: keep the current certificates when ca.crt has no
 valid certificate

---
 pkg/cert/cert.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/cert/cert.go b/pkg/cert/cert.go
index f5ed76d..e6607c4 100644
--- a/pkg/cert/cert.go
+++ b/pkg/cert/cert.go
@@ -65,7 +65,9 @@ func (r *Reloader) check() error {
 		return fmt.Errorf("failed to load ca.crt: %w", err)
 	}
 	pool := x509.NewCertPool()
-	pool.AppendCertsFromPEM(data)
+	if !pool.AppendCertsFromPEM(data) {
+		return errors.New("failed to load ca.crt: no valid certificate found")
+	}
 
 	cert, err := tls.LoadX509KeyPair(filepath.Join(r.dir, "tls.crt"), filepath.Join(r.dir, "tls.key"))
 	if err != nil {
-- 
2.43.0


From 59e18df17d038706d427863af012caacdabb9cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:30 +0000
Subject: [PATCH 30/30] fix: wait for transactions retrieved after the status
 was gathered when stopping external replication

---
 clustering/operations.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/clustering/operations.go b/clustering/operations.go
index 21deb6f..b7a2ed9 100644
--- a/clustering/operations.go
+++ b/clustering/operations.go
@@ -526,13 +526,20 @@ func (p *managerProcess) configurePrimary(ctx context.Context, ss *StatusSet) (r
 	op := ss.DBOps[ss.Primary]
 
 	// wait for all retrieved transactions to be executed if this used to be an intermediate replica
-	if pst.ReplicaStatus != nil && pst.ReplicaStatus.ReplicaIORunning == "Yes" {
+	if pst.ReplicaStatus != nil && (pst.ReplicaStatus.ReplicaIORunning == "Yes" || pst.ReplicaStatus.ReplicaIORunning == "Connecting") {
 		redo = true
 		log.Info("stop replica IO thread", "instance", ss.Primary)
 		if err := op.StopReplicaIOThread(ctx); err != nil {
 			return false, err
 		}
 		time.Sleep(100 * time.Millisecond)
+
+		// transactions may have been retrieved after the status was gathered
+		newStatus, err := op.GetStatus(ctx)
+		if err != nil {
+			return false, fmt.Errorf("failed to recheck the status of instance %d: %w", ss.Primary, err)
+		}
+		pst = newStatus
 	}
 	if pst.ReplicaStatus != nil && pst.ReplicaStatus.RetrievedGtidSet != "" {
 		redo = true
-- 
2.43.0

