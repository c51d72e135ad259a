From 3fbc1d4e0c85e3e08d295796731d90588034255b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:29 +0000
Subject: [PATCH 01/53] fix: complete the future returned by Then on an already
 completed future

---
 core/actor/actor_reenter_impl.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/actor/actor_reenter_impl.go b/core/actor/actor_reenter_impl.go
index e776c6b..d5654bd 100644
--- a/core/actor/actor_reenter_impl.go
+++ b/core/actor/actor_reenter_impl.go
@@ -25,12 +25,16 @@ func (f *Future) Then(callback func(mw *msg.Wrapper)) core.IFuture {
 	f.mutex.Lock()
 	defer f.mutex.Unlock()
 
+	newFuture := NewFuture()
+
 	if f.IsCompleted() {
-		go callback(f.result)
-		return NewFuture()
+		go func(result *msg.Wrapper) {
+			callback(result)
+			newFuture.Complete(result)
+		}(f.result)
+		return newFuture
 	}
 
-	newFuture := NewFuture()
 	f.callbacks = append(f.callbacks, func(mw *msg.Wrapper) {
 		callback(mw)
 		newFuture.Complete(mw)
-- 
2.43.0


From 94c0cbb86e864cf29f906d1734dbee33dfb222fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 02/53] fix: a builder option must not leak into the actor
 template and other builders

---
 core/actor/actor_build_impl.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/actor/actor_build_impl.go b/core/actor/actor_build_impl.go
index 149c101..d2ba3e9 100644
--- a/core/actor/actor_build_impl.go
+++ b/core/actor/actor_build_impl.go
@@ -31,8 +31,17 @@ func (p *ActorLoaderBuilder) WithType(ty string) core.IActorBuilder {
 
 func (p *ActorLoaderBuilder) WithOpt(key string, value string) core.IActorBuilder {
 	p.optionsMutex.Lock()
-	p.Options[key] = value
-	p.optionsMutex.Unlock()
+	defer p.optionsMutex.Unlock()
+
+	// Options is shared with the actor template (and so with every other builder of this type),
+	// so it must be replaced by a copy, never written in place
+	options := make(map[string]string, len(p.Options)+1)
+	for k, v := range p.Options {
+		options[k] = v
+	}
+	options[key] = value
+	p.Options = options
+
 	return p
 }
 
-- 
2.43.0


From 880374a6ef5c4797b21148e84b13a7407b70dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 03/53] fix: guard version strategy registration and return the
 smallest next version

---
 core/entity.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/entity.go b/core/entity.go
index 02be84d..2aa9ce3 100644
--- a/core/entity.go
+++ b/core/entity.go
@@ -35,6 +35,9 @@ var verRMu sync.RWMutex
 
 // RegisterVersionStrategy 注册entity版本变更执行的策略函数
 func RegisterVersionStrategy(s VerStrategy) {
+	verRMu.Lock()
+	defer verRMu.Unlock()
+
 	verList = append(verList, s)
 }
 
@@ -56,14 +59,15 @@ func GetNextVersion(ver int) int {
 	verRMu.RLock()
 	defer verRMu.RUnlock()
 
+	// 保持不变
+	next := ver
 	for _, v := range verList {
-		if v.Version > ver {
-			return v.Version
+		if v.Version > ver && (next == ver || v.Version < next) {
+			next = v.Version
 		}
 	}
 
-	// 保持不变
-	return ver
+	return next
 }
 
 type VerStrategy struct {
-- 
2.43.0


From e3e55e1fb22729fe6c0d6bf4fb6980d92d1299e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 04/53] fix: keep the timestamp when setting a request header

---
 router/msg/msg.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/router/msg/msg.go b/router/msg/msg.go
index eca22b1..54da592 100644
--- a/router/msg/msg.go
+++ b/router/msg/msg.go
@@ -93,6 +93,7 @@ func (b *MsgBuilder) WithReqHeader(h *router.Header) *MsgBuilder {
 		b.wrapper.Req.Header.PrevActorType = h.PrevActorType
 		b.wrapper.Req.Header.TargetActorID = h.TargetActorID
 		b.wrapper.Req.Header.TargetActorType = h.TargetActorType
+		b.wrapper.Req.Header.Timestamp = h.Timestamp
 		b.wrapper.Req.Header.Custom = h.Custom
 	} else {
 		// If either header is nil, directly set the header
-- 
2.43.0


From 6afb1f58e2128ff43782e8227f374480e7c56bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 05/53] fix: low weight node selection must compare each node's
 own weight

---
 core/addressbook/addressbook_impl.go | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 1a2412e..72a3919 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -253,25 +253,20 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 	pipe := trdredis.Pipeline()
 
 	// 使用 pipeline 批量获取节点权重
+	weightCmds := make(map[string]*redis.StringCmd, len(nodeInfoMap))
 	for nodeID := range nodeInfoMap {
-		pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
+		weightCmds[nodeID] = pipe.HGet(ctx, makeNodeKey(nodeID), "total_weight")
 	}
 
-	cmders, err := pipe.Exec(ctx)
-	if err != nil {
+	// redis.Nil only means that some node has no weight yet, it is skipped below
+	if _, err := pipe.Exec(ctx); err != nil && err != redis.Nil {
 		return core.AddressInfo{}, fmt.Errorf("pipeline execution failed: %v", err)
 	}
 
-	i := 0
 	for nodeID, nodeInfoJSON := range nodeInfoMap {
-		if i >= len(cmders) {
-			break
-		}
-
-		weightStr, err := cmders[i].(*redis.StringCmd).Result()
+		weightStr, err := weightCmds[nodeID].Result()
 		if err != nil {
 			log.WarnF("unable to get weight for node %s: %v", nodeID, err)
-			i++
 			continue
 		}
 
@@ -281,14 +276,11 @@ func (ab *AddressBook) GetLowWeightNodeForActor(ctx context.Context, actorType s
 			var nodeInfo core.AddressInfo
 			if err := json.Unmarshal([]byte(nodeInfoJSON), &nodeInfo); err != nil {
 				log.WarnF("unable to unmarshal node info: %v", err)
-				i++
 				continue
 			}
 			lowestWeight = weight
 			selectedNode = nodeInfo
 		}
-
-		i++
 	}
 
 	if selectedNode.Node == "" {
-- 
2.43.0


From 56bfbf00bbfb8367a5c628c5b3f2be035fb2fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 06/53] fix: unregistering releases an actor's weight once, and
 on the node that owns it

---
 core/addressbook/addressbook_impl.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 72a3919..52373d5 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -112,14 +112,22 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("addressbook.unregister json unmarshal err %v", err.Error())
 	}
 
+	// whoever deletes the id record also releases its weight, concurrent unregister must not release it twice
+	deleted, err := trdredis.HDel(ctx, def.RedisAddressbookIDField, id).Result()
+	if err != nil {
+		return fmt.Errorf("addressbook.unregister hdel err %v", err.Error())
+	}
+	if deleted == 0 {
+		return fmt.Errorf("address not found for id: %s", id)
+	}
+
 	// execute multiple redis operations using pipeline
 	pipe := trdredis.Pipeline()
-	pipe.HDel(ctx, def.RedisAddressbookIDField, id)
 	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
 
-	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(-weight))
+	// 更新节点记录 (the weight belongs to the node that registered the actor)
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
 
 	_, err = pipe.Exec(ctx)
 	if err == nil {
-- 
2.43.0


From 332a6e2c4f0fe8c7ebf31dbe8859b55b4ca2b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 07/53] fix: only one of several concurrent registrations of an
 actor id may reach the directory

---
 core/addressbook/addressbook_impl.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 52373d5..2de5426 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -48,12 +48,14 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 		return fmt.Errorf("actor id or type is empty")
 	}
 
-	ab.RLock()
+	// reserve the id (false = registration in progress), so that only one of several concurrent registrations proceeds
+	ab.Lock()
 	if _, ok := ab.IDMap[id]; ok {
-		ab.RUnlock()
+		ab.Unlock()
 		return fmt.Errorf("actor id %v already registered", id)
 	}
-	ab.RUnlock()
+	ab.IDMap[id] = false
+	ab.Unlock()
 
 	// serialize address info to json
 	addrJSON, _ := json.Marshal(core.AddressInfo{
@@ -85,6 +87,9 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 
 	_, err := pipe.Exec(ctx)
 	if err != nil {
+		ab.Lock()
+		delete(ab.IDMap, id)
+		ab.Unlock()
 		return fmt.Errorf("redis pipeline exec err %v", err.Error())
 	}
 
@@ -147,7 +152,7 @@ func (ab *AddressBook) GetByID(ctx context.Context, id string) (core.AddressInfo
 	}
 
 	ab.RLock()
-	if _, ok := ab.IDMap[id]; ok {
+	if registered := ab.IDMap[id]; registered {
 		ab.RUnlock()
 		return core.AddressInfo{Node: ab.NodeID, Ip: ab.Ip, Port: ab.Port, ActorId: id}, nil // return local node info directly
 	}
-- 
2.43.0


From 7ffea534f27abb06eac0e6dba563daf4e0ae8cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 08/53] fix: undo the partial directory record of a failed
 registration

---
 core/addressbook/addressbook_impl.go | 29 ++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 2de5426..c9ce457 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -74,19 +74,40 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 	)
 
 	// execute multiple redis operations using pipeline
+	tyKey := fmt.Sprintf(def.RedisAddressbookTyField+"%s", ty)
+	nodeKey := makeNodeKey(ab.NodeID)
+
 	pipe := trdredis.Pipeline()
-	pipe.HSet(ctx, def.RedisAddressbookIDField, id, addrJSON)
-	pipe.SAdd(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", ty), addrJSON)
+	idCmd := pipe.HSet(ctx, def.RedisAddressbookIDField, id, addrJSON)
+	tyCmd := pipe.SAdd(ctx, tyKey, addrJSON)
 
 	// Add node info to a separate set
 	pipe.HSet(ctx, def.RedisAddressbookNodesField, ab.NodeID, nodeInfoJSON)
 
 	// 更新节点记录
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), fmt.Sprintf("actor:%s", ty), int64(weight))
-	pipe.HIncrBy(ctx, makeNodeKey(ab.NodeID), "total_weight", int64(weight))
+	tyWeightCmd := pipe.HIncrBy(ctx, nodeKey, fmt.Sprintf("actor:%s", ty), int64(weight))
+	totalWeightCmd := pipe.HIncrBy(ctx, nodeKey, "total_weight", int64(weight))
 
 	_, err := pipe.Exec(ctx)
 	if err != nil {
+		// undo the part that took effect, a failed registration must not stay in the directory
+		undo := trdredis.Pipeline()
+		if idCmd.Err() == nil {
+			undo.HDel(ctx, def.RedisAddressbookIDField, id)
+		}
+		if tyCmd.Err() == nil {
+			undo.SRem(ctx, tyKey, addrJSON)
+		}
+		if tyWeightCmd.Err() == nil {
+			undo.HIncrBy(ctx, nodeKey, fmt.Sprintf("actor:%s", ty), int64(-weight))
+		}
+		if totalWeightCmd.Err() == nil {
+			undo.HIncrBy(ctx, nodeKey, "total_weight", int64(-weight))
+		}
+		if _, undoErr := undo.Exec(ctx); undoErr != nil {
+			log.WarnF("[braid.addressbook] undo register actor %v err %v", id, undoErr)
+		}
+
 		ab.Lock()
 		delete(ab.IDMap, id)
 		ab.Unlock()
-- 
2.43.0


From 6827f9697972fdaf7ec8ca645a445d5bb3fd9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:04 +0000
Subject: [PATCH 09/53] fix: a cleared address book must not keep answering for
 the ids it removed

---
 core/addressbook/addressbook_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index c9ce457..3b217ac 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -392,5 +392,9 @@ func (ab *AddressBook) Clear(ctx context.Context) error {
 		return fmt.Errorf("failed to clear node data: %w", err)
 	}
 
+	ab.Lock()
+	ab.IDMap = make(map[string]bool)
+	ab.Unlock()
+
 	return nil
 }
-- 
2.43.0


From 38dcdc13207cd319731e6709e06f507c566ae243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:23 +0000
Subject: [PATCH 10/53] fix: lock the actor map while listing actors and
 exiting

---
 core/node/system_impl.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 7044d19..2bc5308 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -187,6 +187,9 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 }
 
 func (sys *NormalSystem) Actors() []core.IActor {
+	sys.RLock()
+	defer sys.RUnlock()
+
 	actors := []core.IActor{}
 	for _, v := range sys.actoridmap {
 		actors = append(actors, v)
@@ -474,7 +477,7 @@ func (sys *NormalSystem) Exit(wait *sync.WaitGroup) {
 		wait.Done()
 	}
 
-	for _, actor := range sys.actoridmap {
+	for _, actor := range sys.Actors() {
 		wait.Add(1)
 
 		go func(a core.IActor) {
-- 
2.43.0


From 78daee302baf9577c7f5f568fb81f13f332cfe42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:37 +0000
Subject: [PATCH 11/53] fix: concurrent registrations of one id, or of a node
 unique type, must not both succeed

A node unique type was also only enforced when a global limit was set.
---
 core/node/system_impl.go | 42 +++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 2bc5308..5a64e64 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -24,6 +24,7 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
+	registering map[string]string // id -> type, registrations in progress
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -48,6 +49,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
+		registering: make(map[string]string),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -102,23 +104,30 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		return nil, fmt.Errorf("braid.system register actor id %v type %v parm err", builder.GetID(), builder.GetType())
 	}
 
+	// Reserve the id, so that of several concurrent registrations only one proceeds
 	sys.Lock()
 	if _, ok := sys.actoridmap[builder.GetID()]; ok {
 		sys.Unlock()
 		return nil, core.ErrActorRegisterRepeat
 	}
+	if _, ok := sys.registering[builder.GetID()]; ok {
+		sys.Unlock()
+		return nil, core.ErrActorRegisterRepeat
+	}
+	if builder.GetNodeUnique() && sys.hasType(builder.GetType()) {
+		sys.Unlock()
+		return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
+	}
+	sys.registering[builder.GetID()] = builder.GetType()
 	sys.Unlock()
 
-	if builder.GetGlobalQuantityLimit() != 0 {
-
-		if builder.GetNodeUnique() {
-			for _, v := range sys.actoridmap {
-				if v.Type() == builder.GetType() {
-					return nil, fmt.Errorf("[barid.system] register unique type actor %v in %v", builder.GetType(), sys.nodeID)
-				}
-			}
-		}
+	defer func() {
+		sys.Lock()
+		delete(sys.registering, builder.GetID())
+		sys.Unlock()
+	}()
 
+	if builder.GetGlobalQuantityLimit() != 0 {
 		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
 		if err != nil {
 			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
@@ -151,6 +160,21 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	return actor, nil
 }
 
+// hasType reports whether an actor of this type exists on this node or is being registered, sys must be locked
+func (sys *NormalSystem) hasType(ty string) bool {
+	for _, v := range sys.actoridmap {
+		if v.Type() == ty {
+			return true
+		}
+	}
+	for _, v := range sys.registering {
+		if v == ty {
+			return true
+		}
+	}
+	return false
+}
+
 func (sys *NormalSystem) Unregister(id, ty string) error {
 	// First, check if the actor exists and get it
 	log.InfoF("braid.system unregister actor id %v node %v ty %v", id, sys.addressbook.NodeID, ty)
-- 
2.43.0


From c77c43b62ff285e38613f8367079f82e87a38734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:11 +0000
Subject: [PATCH 12/53] fix: concurrent registrations must not exceed a global
 quantity limit

---
 core/node/system_impl.go | 52 ++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 5a64e64..1de45aa 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -25,6 +25,7 @@ type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
 	registering map[string]string // id -> type, registrations in progress
+	limitMutex  sync.Mutex        // serializes the registrations of types with a global quantity limit
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -127,19 +128,8 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		sys.Unlock()
 	}()
 
-	if builder.GetGlobalQuantityLimit() != 0 {
-		cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
-		if err != nil {
-			return nil, fmt.Errorf("[barid.system] get type count err %v", err)
-		}
-		if int(cnt) >= builder.GetGlobalQuantityLimit() {
-			return nil, fmt.Errorf("braid.system actor %v global quantity limit current count %v", builder.GetType(), cnt)
-		}
-	}
-
 	// Register first, then build
-	err := sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())
-	if err != nil {
+	if err := sys.registerAddress(ctx, builder); err != nil {
 		return nil, err
 	}
 
@@ -160,6 +150,44 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	return actor, nil
 }
 
+// registerAddress publishes the actor in the address book, within its global quantity limit
+func (sys *NormalSystem) registerAddress(ctx context.Context, builder core.IActorBuilder) error {
+	limit := builder.GetGlobalQuantityLimit()
+	if limit == 0 {
+		return sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())
+	}
+
+	sys.limitMutex.Lock()
+	defer sys.limitMutex.Unlock()
+
+	cnt, err := sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
+	if err != nil {
+		return fmt.Errorf("[barid.system] get type count err %v", err)
+	}
+	if int(cnt) >= limit {
+		return fmt.Errorf("braid.system actor %v global quantity limit current count %v", builder.GetType(), cnt)
+	}
+
+	err = sys.addressbook.Register(ctx, builder.GetType(), builder.GetID(), builder.GetWeight())
+	if err != nil {
+		return err
+	}
+
+	// Another node may have registered since the count above, so check again now that this actor is visible to it
+	cnt, err = sys.addressbook.GetActorTypeCount(ctx, builder.GetType())
+	if err == nil && int(cnt) <= limit {
+		return nil
+	}
+
+	if uerr := sys.addressbook.Unregister(ctx, builder.GetID(), builder.GetWeight()); uerr != nil {
+		log.WarnF("braid.system withdraw actor id %v err %v", builder.GetID(), uerr)
+	}
+	if err != nil {
+		return fmt.Errorf("[barid.system] get type count err %v", err)
+	}
+	return fmt.Errorf("braid.system actor %v global quantity limit current count %v", builder.GetType(), cnt-1)
+}
+
 // hasType reports whether an actor of this type exists on this node or is being registered, sys must be locked
 func (sys *NormalSystem) hasType(ty string) bool {
 	for _, v := range sys.actoridmap {
-- 
2.43.0


From 6d269423a39fa53effe0cc242f69d18396130893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 13/53] fix: cleaning up a stale record must not hit an actor
 being registered, nor panic on an unknown type

---
 core/node/system_impl.go | 51 +++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 1de45aa..1541c48 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -25,6 +25,7 @@ type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
 	registering map[string]string // id -> type, registrations in progress
+	recordMutex sync.RWMutex      // read-held while an actor and its address book record are added or removed
 	limitMutex  sync.Mutex        // serializes the registrations of types with a global quantity limit
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
@@ -128,6 +129,10 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 		sys.Unlock()
 	}()
 
+	// Until the actor is in the map, its record must not be mistaken for a stale one
+	sys.recordMutex.RLock()
+	defer sys.recordMutex.RUnlock()
+
 	// Register first, then build
 	if err := sys.registerAddress(ctx, builder); err != nil {
 		return nil, err
@@ -214,7 +219,12 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	if exists {
 		// Call Exit on the actor
 		actor.Exit()
+	}
+
+	sys.recordMutex.RLock()
+	defer sys.recordMutex.RUnlock()
 
+	if exists {
 		// Remove the actor from the map
 		sys.Lock()
 		delete(sys.actoridmap, id)
@@ -317,11 +327,7 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
-			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
-		}
-		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
-
+		sys.removeStaleRecord(mw.Ctx, info, actorType, event)
 		return ErrSelfCall
 	}
 
@@ -345,6 +351,36 @@ func (sys *NormalSystem) findLocalOrWildcardActor(ctx context.Context, ty string
 	return nil, info, err
 }
 
+// removeStaleRecord removes an address book record that points to this node although the actor does not exist here
+func (sys *NormalSystem) removeStaleRecord(ctx context.Context, info core.AddressInfo, actorType, event string) {
+	// Some actor is being registered or unregistered right now, and the record may be its record
+	if !sys.recordMutex.TryLock() {
+		return
+	}
+	defer sys.recordMutex.Unlock()
+
+	sys.RLock()
+	_, exists := sys.actoridmap[info.ActorId]
+	sys.RUnlock()
+	if exists {
+		return
+	}
+
+	if info.ActorTy != "" {
+		actorType = info.ActorTy
+	}
+
+	weight := 0
+	if ac := sys.factory.Get(actorType); ac != nil {
+		weight = ac.Weight
+	}
+
+	if err := sys.addressbook.Unregister(ctx, info.ActorId, weight); err != nil {
+		log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
+	}
+	log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
+}
+
 func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 
 	root := mw.GetWg().Count() == 0
@@ -481,10 +517,7 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	}
 
 	if info.Ip == sys.nodeIP && info.Port == sys.nodePort {
-		if err := sys.addressbook.Unregister(mw.Ctx, info.ActorId, sys.factory.Get(actorType).Weight); err != nil {
-			log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
-		}
-		log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
+		sys.removeStaleRecord(mw.Ctx, info, actorType, event)
 		return ErrSelfCall
 	}
 
-- 
2.43.0


From 33f4d412994f8e923c6ea9bd06d668551a3dc191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:10 +0000
Subject: [PATCH 14/53] fix: a late concurrent unregister must not remove the
 next actor of the same id

---
 core/node/system_impl.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 1541c48..dc5163a 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -227,6 +227,11 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	if exists {
 		// Remove the actor from the map
 		sys.Lock()
+		if current, ok := sys.actoridmap[id]; ok && current != actor {
+			// A concurrent unregister removed the actor, and the id already belongs to a new one
+			sys.Unlock()
+			return nil
+		}
 		delete(sys.actoridmap, id)
 		sys.Unlock()
 	}
-- 
2.43.0


From 3cf70f23ebe62cb70679f1685c727982223394ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:14 +0000
Subject: [PATCH 15/53] fix: a request's wait counter may be reused while an
 earlier wait is still returning

---
 lib/warpwaitgroup/warpwaitgroup.go | 50 +++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/lib/warpwaitgroup/warpwaitgroup.go b/lib/warpwaitgroup/warpwaitgroup.go
index 37c5961..b132cd1 100644
--- a/lib/warpwaitgroup/warpwaitgroup.go
+++ b/lib/warpwaitgroup/warpwaitgroup.go
@@ -2,36 +2,62 @@ package warpwaitgroup
 
 import (
 	"sync"
-	"sync/atomic"
 )
 
-// WrapWaitGroup 包装了 sync.WaitGroup，增加了一个计数器。
+// WrapWaitGroup 是一个可以读取当前计数的 WaitGroup。
+//
+// 与 sync.WaitGroup 不同，计数归零后可以立即重新 Add，即使之前的 Wait 还没有返回
+// (the counter travels with the request context, so a late call of the same request may start
+// at the very moment its predecessor ends)
 type WrapWaitGroup struct {
-	wg sync.WaitGroup
-	// 使用一个 int32 变量来记录当前的计数
+	mutex sync.Mutex
+	// 当前的计数
 	counter int32
+	// 计数归零时关闭，没有等待者时为 nil
+	zero chan struct{}
 }
 
-// Add 添加 delta 到 WaitGroup 计数器并更新内部计数器。
+// Add 添加 delta 到计数器，计数归零时唤醒所有等待者。
 func (w *WrapWaitGroup) Add(delta int) {
-	atomic.AddInt32(&w.counter, int32(delta))
+	w.mutex.Lock()
+	defer w.mutex.Unlock()
 
-	//fmt.Printf("%p cnt %v\n", w, atomic.LoadInt32(&w.counter))
-	w.wg.Add(delta)
+	w.counter += int32(delta)
+	if w.counter < 0 {
+		panic("warpwaitgroup: negative counter")
+	}
+
+	if w.counter == 0 && w.zero != nil {
+		close(w.zero)
+		w.zero = nil
+	}
 }
 
 // Done 完成一个 WaitGroup 任务并减少内部计数器。
 func (w *WrapWaitGroup) Done() {
-	atomic.AddInt32(&w.counter, -1)
-	w.wg.Done()
+	w.Add(-1)
 }
 
 // Wait 等待所有的 WaitGroup 任务完成。
 func (w *WrapWaitGroup) Wait() {
-	w.wg.Wait()
+	w.mutex.Lock()
+	if w.counter == 0 {
+		w.mutex.Unlock()
+		return
+	}
+	if w.zero == nil {
+		w.zero = make(chan struct{})
+	}
+	zero := w.zero
+	w.mutex.Unlock()
+
+	<-zero
 }
 
 // Count 返回当前 WaitGroup 中等待的 goroutine 数量。
 func (w *WrapWaitGroup) Count() int32 {
-	return atomic.LoadInt32(&w.counter)
+	w.mutex.Lock()
+	defer w.mutex.Unlock()
+
+	return w.counter
 }
-- 
2.43.0


From b20635e7d1db263481e7ddf5e5c0dd764519155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 16/53] fix: a call that has returned must not go on writing
 the message's error

---
 core/node/system_impl.go | 48 ++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index dc5163a..0e11d6d 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -391,39 +391,33 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 	root := mw.GetWg().Count() == 0
 	if root {
 		log.InfoF("braid.system local call root event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
-		mw.Done = make(chan struct{})
-		ready := make(chan struct{})
-		go func() {
-			<-ready // Wait for Received to complete
-
-			waitCh := make(chan struct{})
-			go func() {
-				mw.GetWg().Wait()
-				close(waitCh)
-			}()
-
-			select {
-			case <-waitCh:
-				// 正常完成
-			case <-time.After(sys.callTimeout):
-				log.WarnF("braid.system wait timeout for event %v id %v, remaining tasks: %d",
-					mw.Req.Header.Event, mw.Req.Header.TargetActorID, mw.GetWg().Count())
-				if mw.Err == nil {
-					mw.Err = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
-				}
-			}
-
-			close(mw.Done)
-		}()
+		done := make(chan struct{})
+		mw.Done = done
 
 		if err := actorp.Received(mw); err != nil {
-			close(ready) // Ensure the ready channel is closed even in case of an error
+			close(done)
 			return err
 		}
-		close(ready) // Notify the goroutine that Received has completed
 
+		go func() {
+			mw.GetWg().Wait()
+			close(done)
+		}()
+
+		timeout := time.NewTimer(sys.callTimeout)
+		defer timeout.Stop()
+
+		// mw.Err is only written here, by the caller's goroutine, and never after the call has returned
 		select {
-		case <-mw.Done:
+		case <-done:
+			// 正常完成
+			return nil
+		case <-timeout.C:
+			log.WarnF("braid.system wait timeout for event %v id %v, remaining tasks: %d",
+				mw.Req.Header.Event, mw.Req.Header.TargetActorID, mw.GetWg().Count())
+			if mw.Err == nil {
+				mw.Err = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
+			}
 			return nil
 		case <-mw.Ctx.Done():
 			timeoutErr := fmt.Errorf("braid actor %v message %v processing timed out",
-- 
2.43.0


From c6dda31b59e2e08507aa836da80b840104302df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 17/53] fix: actor timers: fire once without interval, stop
 before the first tick, no tick after stop, no data race

---
 core/actor/actor_runtime_impl.go | 53 +++++++++++++++----
 core/actor/actor_timer.go        | 91 ++++++++++++++++++++++++++++++--
 2 files changed, 131 insertions(+), 13 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 695ac6d..a681328 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"reflect"
 	"runtime/debug"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -34,8 +35,9 @@ type Runtime struct {
 	chains       map[string]core.IChain
 	recovery     RecoveryFunc
 
-	timers    map[core.ITimer]struct{}
-	timerChan chan core.ITimer
+	timers      map[core.ITimer]struct{}
+	timersMutex sync.Mutex
+	timerChan   chan timerTick
 	//timerWg   sync.WaitGroup // 用于等待所有 timer goroutine 退出
 
 	actorCtx *actorContext
@@ -65,7 +67,7 @@ func (a *Runtime) Init(ctx context.Context) {
 	a.actorCtx.ctx = context.WithValue(a.actorCtx.ctx, actorKey{}, a)
 
 	a.timers = make(map[core.ITimer]struct{})
-	a.timerChan = make(chan core.ITimer, 1024)
+	a.timerChan = make(chan timerTick, 1024)
 
 	go a.update()
 }
@@ -98,24 +100,44 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 		time.Duration(interval)*time.Millisecond,
 		f, args)
 
+	a.timersMutex.Lock()
 	a.timers[info] = struct{}{}
+	a.timersMutex.Unlock()
 	//a.timerWg.Add(1)
 
+	fire := func(tick timerTick) {
+		select {
+		case a.timerChan <- tick:
+		case <-a.shutdownCh:
+		}
+	}
+
 	go func() {
 		//defer a.timerWg.Done()
+		defer info.Stop()
 
 		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发
 		if info.dueTime > 0 {
-			<-time.After(info.dueTime)
-			a.timerChan <- info
+			due := time.NewTimer(info.dueTime)
+			defer due.Stop()
+
+			select {
+			case <-due.C:
+			case <-a.shutdownCh:
+				return
+			}
 		}
 
-		info.ticker = time.NewTicker(info.interval)
+		if tick, ok := info.due(); ok {
+			fire(tick)
+		}
 
 		for {
 			select {
 			case <-info.ticker.C:
-				a.timerChan <- info
+				if tick, ok := info.tick(); ok {
+					fire(tick)
+				}
 			case <-a.shutdownCh:
 				return
 			}
@@ -133,7 +155,10 @@ func (a *Runtime) CancelTimer(t core.ITimer) {
 	log.InfoF("[braid.timer] %v timer cancel", a.Id)
 
 	t.Stop()
+
+	a.timersMutex.Lock()
 	delete(a.timers, t)
+	a.timersMutex.Unlock()
 }
 
 // Sub subscribes to a message
@@ -302,10 +327,13 @@ func (a *Runtime) update() {
 
 	for {
 		select {
-		case timerInfo := <-a.timerChan:
+		case tick := <-a.timerChan:
 			if atomic.LoadInt32(&a.closed) != 0 {
 				continue
 			}
+			if !tick.take() { // stopped or reset since
+				continue
+			}
 			func() {
 				defer func() {
 					if r := recover(); r != nil {
@@ -313,7 +341,7 @@ func (a *Runtime) update() {
 					}
 				}()
 
-				if err := timerInfo.Execute(); err != nil {
+				if err := tick.timer.Execute(); err != nil {
 					log.WarnF("actor %v timer callback error: %v", a.Id, err)
 				}
 			}()
@@ -368,7 +396,14 @@ func (a *Runtime) Exit() {
 	close(a.shutdownCh) // 发送关闭信号
 	<-a.closeCh         // 等待所有消息处理完毕
 
+	a.timersMutex.Lock()
+	timers := make([]core.ITimer, 0, len(a.timers))
 	for t := range a.timers {
+		timers = append(timers, t)
+	}
+	a.timersMutex.Unlock()
+
+	for _, t := range timers {
 		a.CancelTimer(t)
 	}
 	//a.timerWg.Wait()
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 0069d54..857e48e 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -1,6 +1,7 @@
 package actor
 
 import (
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -9,29 +10,48 @@ import (
 
 type TimerInfo struct {
 	ID       string
-	ticker   *time.Ticker
 	dueTime  time.Duration
-	interval time.Duration
 	callback func(interface{}) error
 	args     interface{}
 	active   atomic.Bool  // 使用原子操作保证线程安全
 	nextTick atomic.Value // 下次触发时间
+
+	mutex    sync.Mutex // 保护以下字段
+	ticker   *time.Ticker
+	interval time.Duration
+	waiting  bool   // 还在等待 dueTime
+	gen      uint64 // 每次 Stop / Reset 后递增，使已经排队的 tick 失效
+}
+
+// timerTick is a tick on its way to the actor goroutine
+type timerTick struct {
+	timer *TimerInfo
+	gen   uint64
 }
 
 func (t *TimerInfo) Stop() bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	if !t.active.Load() {
 		return false
 	}
 	t.active.Store(false)
+	t.waiting = false
+	t.gen++
 	t.ticker.Stop()
+	t.drain()
 
 	return true
 }
 
 func (t *TimerInfo) Reset(interval time.Duration) bool {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	if interval > 0 {
 		// 如果 interval 和 t.interval 相同，则不处理
-		if t.interval == interval {
+		if t.interval == interval && t.active.Load() {
 			return true
 		}
 		t.interval = interval
@@ -41,17 +61,34 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 	}
 
 	t.active.Store(true)
-	t.nextTick.Store(time.Now().Add(t.interval))
+	if t.waiting {
+		return true // the new interval takes effect after dueTime
+	}
 
+	t.gen++
+	t.nextTick.Store(time.Now().Add(t.interval))
+	t.ticker.Stop()
+	t.drain()
 	t.ticker.Reset(t.interval)
 	return true
 }
 
+// drain drops an expiry of the ticker that nobody has seen yet
+func (t *TimerInfo) drain() {
+	select {
+	case <-t.ticker.C:
+	default:
+	}
+}
+
 func (t *TimerInfo) IsActive() bool {
 	return t.active.Load()
 }
 
 func (t *TimerInfo) Interval() time.Duration {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
 	return t.interval
 }
 
@@ -66,6 +103,49 @@ func (t *TimerInfo) Execute() error {
 	return t.callback(t.args)
 }
 
+// due ends the dueTime phase and starts the ticker, it reports whether the timer fires now
+func (t *TimerInfo) due() (timerTick, bool) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	if !t.waiting {
+		return timerTick{}, false
+	}
+	t.waiting = false
+	if t.interval > 0 {
+		t.nextTick.Store(time.Now().Add(t.interval))
+		t.ticker.Reset(t.interval)
+	}
+	return timerTick{timer: t, gen: t.gen}, t.dueTime > 0 || t.interval <= 0
+}
+
+// tick reports whether an expiry of the ticker still counts
+func (t *TimerInfo) tick() (timerTick, bool) {
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	if !t.active.Load() || t.waiting {
+		return timerTick{}, false
+	}
+	t.nextTick.Store(time.Now().Add(t.interval))
+	return timerTick{timer: t, gen: t.gen}, true
+}
+
+// take reports whether the tick may still run its callback, a timer without interval ends with it
+func (tt timerTick) take() bool {
+	t := tt.timer
+	t.mutex.Lock()
+	defer t.mutex.Unlock()
+
+	if !t.active.Load() || t.gen != tt.gen {
+		return false
+	}
+	if t.interval <= 0 {
+		t.active.Store(false)
+	}
+	return true
+}
+
 func NewTimerInfo(dueTime, interval time.Duration, callback func(interface{}) error, args interface{}) *TimerInfo {
 	t := &TimerInfo{
 		ID:       uuid.NewString(),
@@ -73,7 +153,10 @@ func NewTimerInfo(dueTime, interval time.Duration, callback func(interface{}) er
 		interval: interval,
 		callback: callback,
 		args:     args,
+		waiting:  true,
+		ticker:   time.NewTicker(time.Hour),
 	}
+	t.ticker.Stop() // until dueTime has passed
 	t.active.Store(true)
 
 	if dueTime != 0 {
-- 
2.43.0


From b4e935f347bab06fcc15cb3549c4c925f7f10647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 18/53] fix: an exiting actor handles every message it
 accepted, and may be asked to exit more than once

---
 core/actor/actor_runtime_impl.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index a681328..bfca8cd 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -32,6 +32,9 @@ type Runtime struct {
 	closed       int32
 	closeCh      chan struct{}
 	shutdownCh   chan struct{}
+	shutdownOnce sync.Once
+	receiving    int32 // number of Received calls in progress
+	handling     int32 // 1 while a message is taken from the queue and handled
 	chains       map[string]core.IChain
 	recovery     RecoveryFunc
 
@@ -202,6 +205,10 @@ func (a *Runtime) Received(mw *msg.Wrapper) error {
 		}
 	}
 
+	// Until this returns the actor does not count as drained, so an accepted message is always handled
+	atomic.AddInt32(&a.receiving, 1)
+	defer atomic.AddInt32(&a.receiving, -1)
+
 	if atomic.LoadInt32(&a.closed) != 0 {
 		// Actor已关闭，不处理消息，也不增加计数器
 		log.WarnF("actor %v is closed, message %v will be ignored", a.Id, mw.Req.Header.Event)
@@ -308,7 +315,14 @@ func (a *Runtime) update() {
 		ticker := time.NewTicker(10 * time.Millisecond)
 		defer ticker.Stop()
 
-		for !a.q.Empty() || !a.reenterQueue.Empty() {
+		// The order matters: nothing is accepted any more once receiving is 0, nothing is taken once the queues are empty
+		drained := func() bool {
+			return atomic.LoadInt32(&a.receiving) == 0 &&
+				a.q.Count() == 0 && a.reenterQueue.Count() == 0 &&
+				atomic.LoadInt32(&a.handling) == 0
+		}
+
+		for !drained() {
 			select {
 			case <-timeout:
 				log.WarnF("[braid.actor] %s force close due to timeout waiting for queue to empty remaining %v", a.Id, a.q.Count())
@@ -325,6 +339,8 @@ func (a *Runtime) update() {
 		}
 	}
 
+	shutdownCh := a.shutdownCh
+
 	for {
 		select {
 		case tick := <-a.timerChan:
@@ -346,10 +362,12 @@ func (a *Runtime) update() {
 				}
 			}()
 		case <-a.q.C:
+			atomic.StoreInt32(&a.handling, 1)
 			msgInterface := a.q.Pop()
 
 			mw, ok := msgInterface.(*msg.Wrapper)
 			if !ok {
+				atomic.StoreInt32(&a.handling, 0)
 				log.WarnF("actor %v received non-Message type %v", a.Id, reflect.TypeOf(msgInterface))
 				continue
 			}
@@ -372,14 +390,18 @@ func (a *Runtime) update() {
 					log.WarnF("actor %v No handlers for message type: %s", a.Id, mw.Req.Header.Event)
 				}
 			}()
+			atomic.StoreInt32(&a.handling, 0)
 
 		case <-a.reenterQueue.C:
+			atomic.StoreInt32(&a.handling, 1)
 			reenterMsgInterface := a.reenterQueue.Pop()
 			if reenterMsg, ok := reenterMsgInterface.(*reenterMessage); ok {
 				reenterMsg.action(reenterMsg.msg.(*msg.Wrapper))
 			}
+			atomic.StoreInt32(&a.handling, 0)
 
-		case <-a.shutdownCh:
+		case <-shutdownCh:
+			shutdownCh = nil
 			if atomic.CompareAndSwapInt32(&a.closed, 0, 1) {
 				log.DebugF("[braid.actor] %s exiting check close %v", a.Id, atomic.LoadInt32(&a.closed))
 				go checkClose()
@@ -393,8 +415,10 @@ func (a *Runtime) update() {
 
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
-	close(a.shutdownCh) // 发送关闭信号
-	<-a.closeCh         // 等待所有消息处理完毕
+	a.shutdownOnce.Do(func() {
+		close(a.shutdownCh) // 发送关闭信号
+	})
+	<-a.closeCh // 等待所有消息处理完毕
 
 	a.timersMutex.Lock()
 	timers := make([]core.ITimer, 0, len(a.timers))
-- 
2.43.0


From dc14e9c0cc0eae541b5136d7f4d1fecbb1b63d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 19/53] fix: register a subscription's handler before its
 messages arrive, and guard the actor's handlers

---
 core/actor/actor_runtime_impl.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index bfca8cd..cd43165 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -36,6 +36,7 @@ type Runtime struct {
 	receiving    int32 // number of Received calls in progress
 	handling     int32 // 1 while a message is taken from the queue and handled
 	chains       map[string]core.IChain
+	chainsMutex  sync.RWMutex
 	recovery     RecoveryFunc
 
 	timers      map[core.ITimer]struct{}
@@ -84,10 +85,22 @@ func (a *Runtime) Context() core.ActorContext {
 }
 
 func (a *Runtime) OnEvent(ev string, chainFunc func(ctx core.ActorContext) core.IChain) error {
+	a.chainsMutex.RLock()
+	_, exists := a.chains[ev]
+	a.chainsMutex.RUnlock()
+	if exists {
+		return fmt.Errorf("actor: repeat register event %v", ev)
+	}
+
+	chain := chainFunc(a.actorCtx)
+
+	a.chainsMutex.Lock()
+	defer a.chainsMutex.Unlock()
+
 	if _, exists := a.chains[ev]; exists {
 		return fmt.Errorf("actor: repeat register event %v", ev)
 	}
-	a.chains[ev] = chainFunc(a.actorCtx)
+	a.chains[ev] = chain
 	return nil
 }
 
@@ -177,9 +190,12 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
 	}
 
-	ch.Arrived(a.q)
+	// The handler must be in place before the first message arrives
+	if err := a.OnEvent(channel, callback); err != nil {
+		log.WarnF("actor %v topic %v channel %v err %v", a.Id, topic, channel, err)
+	}
 
-	a.OnEvent(channel, callback)
+	ch.Arrived(a.q)
 
 	return nil
 }
@@ -381,7 +397,11 @@ func (a *Runtime) update() {
 					mw.GetWg().Done()
 				}()
 
-				if chain, ok := a.chains[mw.Req.Header.Event]; ok {
+				a.chainsMutex.RLock()
+				chain, ok := a.chains[mw.Req.Header.Event]
+				a.chainsMutex.RUnlock()
+
+				if ok {
 					err := chain.Execute(mw)
 					if err != nil {
 						log.WarnF("actor %v event %v execute err %v", a.Id, mw.Req.Header.Event, err)
-- 
2.43.0


From 31b5c731cbad6a7e14f622e79a9e0df2f0b96fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:15 +0000
Subject: [PATCH 20/53] fix: an actor that unregisters itself must not deadlock

---
 core/actor/actor_context_impl.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/actor/actor_context_impl.go b/core/actor/actor_context_impl.go
index 92a2fcb..a32c689 100644
--- a/core/actor/actor_context_impl.go
+++ b/core/actor/actor_context_impl.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 
 	"github.com/pojol/braid/core"
+	"github.com/pojol/braid/lib/log"
 	"github.com/pojol/braid/router/msg"
 )
 
@@ -63,6 +64,16 @@ func (ac *actorContext) Unregister(id, ty string) error {
 		panic(errors.New("the system instance does not exist in the ActorContext"))
 	}
 
+	// An actor can only exit once its current handler has returned, so it must not wait for itself
+	if actor, ok := ac.ctx.Value(actorKey{}).(core.IActor); ok && actor.ID() == id {
+		go func() {
+			if err := sys.Unregister(id, ty); err != nil {
+				log.WarnF("actor %v unregister itself err %v", id, err)
+			}
+		}()
+		return nil
+	}
+
 	return sys.Unregister(id, ty)
 }
 
-- 
2.43.0


From 1db721825fea17ab791c50bfa7c4ca0ab6778fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 21/53] fix: report a failed routing to the remote caller
 instead of an empty success

---
 core/node/system_acceptor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 9ebff79..535844b 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -107,6 +107,12 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 
 	if err != nil {
 		log.InfoF("listen routing %v err %v", req.Msg.Header.Event, err.Error())
+		return nil, err
+	}
+
+	if routermsg.Err != nil {
+		log.InfoF("listen routing %v message err %v", req.Msg.Header.Event, routermsg.Err.Error())
+		return nil, routermsg.Err
 	}
 
 	res.Msg = routermsg.Res
-- 
2.43.0


From c342ccbefd730032f6c3d2947bbf8e8edbda52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 22/53] fix: bound a remote call by the call timeout

---
 core/node/system_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 0e11d6d..a445755 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -435,6 +435,10 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 }
 
 func (sys *NormalSystem) handleRemoteCall(ctx context.Context, addrinfo core.AddressInfo, mw *msg.Wrapper) error {
+	// The other node may be unreachable or hang, so the call timeout applies here as well
+	ctx, cancel := context.WithTimeout(ctx, sys.callTimeout)
+	defer cancel()
+
 	res := &router.RouteRes{}
 	err := sys.client.CallWait(ctx,
 		fmt.Sprintf("%s:%d", addrinfo.Ip, addrinfo.Port),
-- 
2.43.0


From f6c6e4071b616ba2c2e88cd63bb38197377b2272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 23/53] fix: CallWait leaked a connection per concurrent first
 call, and crashed on a mistyped option

---
 lib/grpc/client.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/grpc/client.go b/lib/grpc/client.go
index 0a12bd0..8f1419a 100644
--- a/lib/grpc/client.go
+++ b/lib/grpc/client.go
@@ -140,7 +140,11 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 			return err
 		}
 
-		c.connmap.Store(addr, conn)
+		// of several calls that connect to a new address at once, only one keeps its connection
+		if current, loaded := c.connmap.LoadOrStore(addr, conn); loaded {
+			conn.Close()
+			conn = current.(*grpc.ClientConn)
+		}
 	}
 
 	if len(opts) != 0 {
@@ -148,6 +152,7 @@ func (c *Client) CallWait(ctx context.Context, addr, methon string, args, reply
 			callopt, ok := v.(grpc.CallOption)
 			if !ok {
 				fmt.Printf("[braid.client] call option type mismatch")
+				return fmt.Errorf("[braid.client] invalid call option type: %T", v)
 			}
 			grpcopts = append(grpcopts, callopt)
 		}
-- 
2.43.0


From 641658fa2f38cecbcdbed931b5d70aae274934da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 24/53] fix: sending to another node works without an earlier
 call, and does not wait for the handler

---
 core/node/system_acceptor.go | 25 ++++++++++++++++++++++++-
 core/node/system_impl.go     |  9 +++++++--
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index 535844b..df1d585 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -17,6 +17,7 @@ import (
 	"github.com/pojol/braid/router/msg"
 
 	realgrpc "google.golang.org/grpc"
+	"google.golang.org/grpc/metadata"
 
 	grpc_recovery "github.com/grpc-ecosystem/go-grpc-middleware/recovery"
 )
@@ -90,17 +91,35 @@ func (acceptor *Acceptor) Exit() {
 	acceptor.server.Close()
 }
 
+// routingSendKey marks, in the metadata of a routing request, a message that was sent and not called
+const routingSendKey = "braid-send"
+
+func isRoutingSend(ctx context.Context) bool {
+	md, ok := metadata.FromIncomingContext(ctx)
+	return ok && len(md.Get(routingSendKey)) > 0
+}
+
 // acceptor routing
 func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.RouteRes, error) {
 	res := &router.RouteRes{}
 
+	send := isRoutingSend(ctx)
+	if send {
+		ctx = context.WithoutCancel(ctx) // the message outlives this request
+	}
+
 	ctx = context.WithValue(ctx, msg.WaitGroupKey{}, &warpwaitgroup.WrapWaitGroup{})
 
 	routermsg := msg.NewBuilder(ctx).Build()
 	routermsg.Req = req.Msg
 	routermsg.Req.Header.PrevActorType = "GrpcAcceptor"
 
-	err := s.sys.Call(
+	route := s.sys.Call
+	if send {
+		route = s.sys.Send
+	}
+
+	err := route(
 		req.Msg.Header.TargetActorID,
 		req.Msg.Header.TargetActorType,
 		req.Msg.Header.Event, routermsg)
@@ -110,6 +129,10 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 		return nil, err
 	}
 
+	if send {
+		return res, nil
+	}
+
 	if routermsg.Err != nil {
 		log.InfoF("listen routing %v message err %v", req.Msg.Header.Event, routermsg.Err.Error())
 		return nil, routermsg.Err
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index a445755..36ce7f5 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -19,6 +19,7 @@ import (
 	"github.com/pojol/braid/router"
 	"github.com/pojol/braid/router/msg"
 	realgrpc "google.golang.org/grpc"
+	"google.golang.org/grpc/metadata"
 )
 
 type NormalSystem struct {
@@ -528,11 +529,15 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 }
 
 func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper) error {
-	return sys.client.Call(mw.Ctx,
+	// The other node answers as soon as the target has accepted the message
+	ctx, cancel := context.WithTimeout(metadata.AppendToOutgoingContext(mw.Ctx, routingSendKey, "1"), sys.callTimeout)
+	defer cancel()
+
+	return sys.client.CallWait(ctx,
 		fmt.Sprintf("%s:%d", info.Ip, info.Port),
 		"/router.Acceptor/routing",
 		&router.RouteReq{Msg: mw.Req},
-		nil) // We don't need the response for Send
+		&router.RouteRes{}) // We don't need the response for Send
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-- 
2.43.0


From c3e6f526800ff561ddb25eed4e4be0a6e77f1e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:30 +0000
Subject: [PATCH 25/53] fix: publishing to a topic this node never subscribed
 to must not panic

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 36ce7f5..01bb0d5 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -541,7 +541,7 @@ func (sys *NormalSystem) handleRemoteSend(info core.AddressInfo, mw *msg.Wrapper
 }
 
 func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
-	return sys.ps.GetTopic(topic).Pub(context.TODO(), event, body)
+	return sys.ps.GetOrCreateTopic(topic).Pub(context.TODO(), event, body)
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-- 
2.43.0


From 5ad690e5464b445b69b6f4ab73771ae74e3742ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:30 +0000
Subject: [PATCH 26/53] fix: apply the topic options given to a subscription

---
 core/node/system_impl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 01bb0d5..cee1bc7 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -545,7 +545,7 @@ func (sys *NormalSystem) Pub(topic string, event string, body []byte) error {
 }
 
 func (sys *NormalSystem) Sub(topic string, channel string, opts ...pubsub.TopicOption) (*pubsub.Channel, error) {
-	return sys.ps.GetOrCreateTopic(topic).Sub(context.TODO(), channel)
+	return sys.ps.GetOrCreateTopic(topic, opts...).Sub(context.TODO(), channel)
 }
 
 func (sys *NormalSystem) FindActor(ctx context.Context, id string) (core.IActor, error) {
-- 
2.43.0


From 58e99f3e0ed37efe39d925947b8f31ad23a18497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 27/53] fix: a subscriber that exits must stop consuming, and
 hand over what it already fetched

---
 core/actor/actor_runtime_impl.go |  17 +++++
 lib/pubsub/ps_channel.go         | 110 +++++++++++++++++++++----------
 2 files changed, 93 insertions(+), 34 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index cd43165..8a795a3 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -39,6 +39,9 @@ type Runtime struct {
 	chainsMutex  sync.RWMutex
 	recovery     RecoveryFunc
 
+	channels      []*pubsub.Channel
+	channelsMutex sync.Mutex
+
 	timers      map[core.ITimer]struct{}
 	timersMutex sync.Mutex
 	timerChan   chan timerTick
@@ -197,6 +200,10 @@ func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.Actor
 
 	ch.Arrived(a.q)
 
+	a.channelsMutex.Lock()
+	a.channels = append(a.channels, ch)
+	a.channelsMutex.Unlock()
+
 	return nil
 }
 
@@ -435,6 +442,16 @@ func (a *Runtime) update() {
 
 func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
+
+	// Stop consuming first, so that what was fetched already is handled as well
+	a.channelsMutex.Lock()
+	channels := append([]*pubsub.Channel{}, a.channels...)
+	a.channelsMutex.Unlock()
+
+	for _, ch := range channels {
+		ch.Stop()
+	}
+
 	a.shutdownOnce.Do(func() {
 		close(a.shutdownCh) // 发送关闭信号
 	})
diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 751eae7..45e221e 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -2,7 +2,7 @@ package pubsub
 
 import (
 	"context"
-	"sync/atomic"
+	"sync"
 	"time"
 
 	"github.com/google/uuid"
@@ -20,7 +20,10 @@ type Channel struct {
 	channel  string // stream group
 	consumer string // group consumer
 
-	exitFlag int32
+	exitOnce sync.Once
+	exitCh   chan struct{}  // closed when the channel is asked to stop
+	loopDone chan struct{}  // closed when the channel fetches nothing any more
+	handlers sync.WaitGroup // handlers that may still hand over fetched messages
 	msgCh    *unbounded.Unbounded
 }
 
@@ -30,6 +33,8 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 		topic:    topic,
 		channel:  channel,
 		consumer: uuid.New().String(),
+		exitCh:   make(chan struct{}),
+		loopDone: make(chan struct{}),
 		msgCh:    unbounded.NewUnbounded(),
 	}
 
@@ -45,25 +50,35 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 
 func (c *Channel) loop() {
 	go func() {
+		defer close(c.loopDone)
+
 		for {
-			msgs := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
+			select {
+			case <-c.exitCh:
+				return
+			default:
+			}
+
+			msgs, err := thdredis.XReadGroup(context.TODO(), &redis.XReadGroupArgs{
 				Group:    c.channel,
 				Consumer: c.consumer,
 				Streams:  []string{c.topic, ">"},
 				Block:    10 * time.Millisecond,
 				Count:    10,
-			}).Val()
+			}).Result()
+			if err != nil && err != redis.Nil {
+				select {
+				case <-c.exitCh:
+					return
+				case <-time.After(10 * time.Millisecond):
+				}
+			}
 
 			for _, v := range msgs {
 				for _, msg := range v.Messages {
 
 					val := msg.Values["msg"].(string)
 
-					if atomic.LoadInt32(&c.exitFlag) == 1 {
-						log.WarnF("cannot write to the exiting channel %v", c.channel)
-						return
-					}
-
 					msg := &router.Message{
 						Header: &router.Header{
 							ID:    msg.ID,
@@ -80,47 +95,74 @@ func (c *Channel) loop() {
 }
 
 func (c *Channel) addHandlers(queue *mpsc.Queue) {
+	c.handlers.Add(1)
+
 	go func() {
+		defer c.handlers.Done()
 
 		for {
-			m, ok := <-c.msgCh.Get()
-			if !ok {
-				goto EXT
+			select {
+			case m := <-c.msgCh.Get():
+				c.msgCh.Load()
+				c.handle(queue, m)
+			case <-c.loopDone:
+				// hand over what was fetched before the channel stopped
+				for {
+					select {
+					case m := <-c.msgCh.Get():
+						c.msgCh.Load()
+						c.handle(queue, m)
+					default:
+						log.InfoF("channel %v stopping handler", c.channel)
+						return
+					}
+				}
 			}
-			c.msgCh.Load()
+		}
+	}()
+}
 
-			pipe := thdredis.Pipeline()
-			recvmsg, ok := m.(*router.Message)
-			if !ok {
-				log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
-				continue
-			}
+func (c *Channel) handle(queue *mpsc.Queue, m interface{}) {
+	pipe := thdredis.Pipeline()
+	recvmsg, ok := m.(*router.Message)
+	if !ok {
+		log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
+		return
+	}
 
-			mb := msg.NewBuilder(context.TODO()).
-				WithReqHeader(&router.Header{ID: recvmsg.Header.ID, Event: recvmsg.Header.Event}).
-				WithReqBody(recvmsg.Body).Build()
-			mb.GetWg().Add(1)
-			queue.Push(mb)
+	mb := msg.NewBuilder(context.TODO()).
+		WithReqHeader(&router.Header{ID: recvmsg.Header.ID, Event: recvmsg.Header.Event}).
+		WithReqBody(recvmsg.Body).Build()
+	mb.GetWg().Add(1)
+	queue.Push(mb)
 
-			pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
-			pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
+	pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
+	pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
 
-			_, err := pipe.Exec(context.TODO())
-			if err != nil {
-				log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
-			}
-		}
-	EXT:
-		log.InfoF("channel %v stopping handler", c.channel)
-	}()
+	_, err := pipe.Exec(context.TODO())
+	if err != nil {
+		log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
+	}
 }
 
 func (c *Channel) Arrived(queue *mpsc.Queue) {
 	c.addHandlers(queue)
 }
 
+// Stop ends the consumption: once it has returned nothing more is fetched or pushed to the queue.
+// The channel (group) itself is kept, so messages published from now on wait for its next subscriber.
+func (c *Channel) Stop() {
+	c.exitOnce.Do(func() {
+		close(c.exitCh)
+	})
+	<-c.loopDone
+	c.handlers.Wait()
+}
+
 func (c *Channel) Close() error {
 
+	c.Stop()
+
 	_, err := thdredis.XGroupDelConsumer(context.TODO(), c.topic, c.channel, c.consumer).Result()
 	if err != nil {
 		log.WarnF("braid.pubsub topic %v channel %v redis channel del consumer err %v", c.topic, c.channel, err.Error())
-- 
2.43.0


From 98be5798c803822ad1215690219fad4223fa64fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:56 +0000
Subject: [PATCH 28/53] fix: a message consumed by one channel must stay for
 the other channels of the topic

---
 lib/pubsub/ps_channel.go | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 45e221e..d82414d 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -2,6 +2,8 @@ package pubsub
 
 import (
 	"context"
+	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -123,7 +125,6 @@ func (c *Channel) addHandlers(queue *mpsc.Queue) {
 }
 
 func (c *Channel) handle(queue *mpsc.Queue, m interface{}) {
-	pipe := thdredis.Pipeline()
 	recvmsg, ok := m.(*router.Message)
 	if !ok {
 		log.WarnF("topic %v channel %v msg is not of type *router.Message", c.topic, c.channel)
@@ -136,13 +137,43 @@ func (c *Channel) handle(queue *mpsc.Queue, m interface{}) {
 	mb.GetWg().Add(1)
 	queue.Push(mb)
 
+	pipe := thdredis.Pipeline()
 	pipe.XAck(context.TODO(), c.topic, c.channel, recvmsg.Header.ID)
-	pipe.XDel(context.TODO(), c.topic, recvmsg.Header.ID)
+	groups := pipe.XInfoGroups(context.TODO(), c.topic)
 
 	_, err := pipe.Exec(context.TODO())
 	if err != nil {
 		log.WarnF("topic %v channel %v id %v pipeline failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
+		return
+	}
+
+	// The message goes once every channel of the topic has fetched it
+	for _, group := range groups.Val() {
+		if lessStreamID(group.LastDeliveredID, recvmsg.Header.ID) {
+			return
+		}
 	}
+
+	err = thdredis.XDel(context.TODO(), c.topic, recvmsg.Header.ID).Err()
+	if err != nil {
+		log.WarnF("topic %v channel %v id %v delete failed: %v", c.topic, c.channel, recvmsg.Header.ID, err)
+	}
+}
+
+// lessStreamID compares two stream entry ids (milliseconds-sequence)
+func lessStreamID(a, b string) bool {
+	ams, aseq := splitStreamID(a)
+	bms, bseq := splitStreamID(b)
+
+	return ams < bms || (ams == bms && aseq < bseq)
+}
+
+func splitStreamID(id string) (ms, seq uint64) {
+	m, s, _ := strings.Cut(id, "-")
+	ms, _ = strconv.ParseUint(m, 10, 64)
+	seq, _ = strconv.ParseUint(s, 10, 64)
+
+	return ms, seq
 }
 
 func (c *Channel) Arrived(queue *mpsc.Queue) {
-- 
2.43.0


From 9e6e6db84a6cf321051930b1785efea21f024753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:57 +0000
Subject: [PATCH 29/53] fix: a foreign stream entry must not crash the
 subscriber's node

---
 lib/pubsub/ps_channel.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index d82414d..55072a6 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -79,12 +79,14 @@ func (c *Channel) loop() {
 			for _, v := range msgs {
 				for _, msg := range v.Messages {
 
-					val := msg.Values["msg"].(string)
+					// absent in an entry that was not added by Pub
+					val, _ := msg.Values["msg"].(string)
+					event, _ := msg.Values["event"].(string)
 
 					msg := &router.Message{
 						Header: &router.Header{
 							ID:    msg.ID,
-							Event: msg.Values["event"].(string),
+							Event: event,
 						},
 						Body: []byte(val),
 					}
-- 
2.43.0


From 59e2c2ee49f2b915cf9fab3befb027569e0f3cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:31 +0000
Subject: [PATCH 30/53] fix: tick tasks: one loop per task also after a panic,
 stop really stops, no data race

---
 lib/timer/timer.go      | 42 ++++++++++++++++++++++-------
 lib/timer/timer_tick.go | 58 ++++++++++++++++++++++++++++++++---------
 2 files changed, 77 insertions(+), 23 deletions(-)

diff --git a/lib/timer/timer.go b/lib/timer/timer.go
index 08a6552..b54f67c 100644
--- a/lib/timer/timer.go
+++ b/lib/timer/timer.go
@@ -52,6 +52,7 @@ type TimerInfo struct {
 	handler     TimerHandleFunc
 	context     *TimerContext
 	State       string
+	quit        chan struct{} // closed by stop, one per start
 	DueTime     int64 //开始任务的延迟时间（以毫秒为单位），如果<=0则不延迟
 }
 
@@ -60,8 +61,12 @@ func (task *TimerInfo) stop() {
 	if !task.isRun {
 		return
 	}
+
+	task.mutex.Lock()
+	defer task.mutex.Unlock()
+
 	if task.State == Timer_state_run {
-		task.TimeTicker.Stop()
+		close(task.quit)
 		task.State = Timer_state_stop
 	}
 }
@@ -121,14 +126,33 @@ func Init() *TimerService {
 	return service
 }
 
-func (ts *TimerService) StartAllTask() {
+func (ts *TimerService) getTask(taskID string) (Timer, bool) {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	t, ok := ts.taskMap[taskID]
+	return t, ok
+}
+
+func (ts *TimerService) allTasks() []Timer {
+	ts.taskMutex.RLock()
+	defer ts.taskMutex.RUnlock()
+
+	tasks := make([]Timer, 0, len(ts.taskMap))
 	for _, v := range ts.taskMap {
+		tasks = append(tasks, v)
+	}
+	return tasks
+}
+
+func (ts *TimerService) StartAllTask() {
+	for _, v := range ts.allTasks() {
 		v.start()
 	}
 }
 
 func (ts *TimerService) StopAllTask() {
-	for _, v := range ts.taskMap {
+	for _, v := range ts.allTasks() {
 		v.stop()
 	}
 }
@@ -156,22 +180,20 @@ func (service *TimerService) RemoveTask(taskID string) {
 }
 
 func (ts *TimerService) StopTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if t, ok := ts.getTask(taskID); ok {
+		t.stop()
 	}
-	ts.taskMap[taskID].stop()
 }
 
 func (ts *TimerService) StartTask(taskID string) {
-	if _, ok := ts.taskMap[taskID]; !ok {
-		return
+	if t, ok := ts.getTask(taskID); ok {
+		t.start()
 	}
-	ts.taskMap[taskID].start()
 }
 
 func (ts *TimerService) Stop(name string) error {
 
-	if v, ok := ts.taskMap[name]; ok {
+	if v, ok := ts.getTask(name); ok {
 		v.stop()
 		return nil
 	}
diff --git a/lib/timer/timer_tick.go b/lib/timer/timer_tick.go
index e244eb8..a285aa4 100644
--- a/lib/timer/timer_tick.go
+++ b/lib/timer/timer_tick.go
@@ -21,6 +21,7 @@ func (tt *TimerTask) start() {
 
 	if tt.State == Timer_state_init || tt.State == Timer_state_stop {
 		tt.State = Timer_state_run
+		tt.quit = make(chan struct{})
 		startTickTask(tt)
 	}
 }
@@ -31,6 +32,10 @@ func (tt *TimerTask) runOnce() error {
 }
 
 func NewTickTimer(taskID string, isRun bool, dueTime int64, interval int64, handler TimerHandleFunc, taskData interface{}) (Timer, error) {
+	if interval <= 0 {
+		return nil, fmt.Errorf("tick task %v interval %v is not positive", taskID, interval)
+	}
+
 	context := new(TimerContext)
 	context.TimerID = taskID
 	context.TimerData = taskData
@@ -47,16 +52,18 @@ func NewTickTimer(taskID string, isRun bool, dueTime int64, interval int64, hand
 	return task, nil
 }
 
+// startTickTask starts the loop of the task, task must be locked
 func startTickTask(task *TimerTask) {
+	quit := task.quit
+
 	handler := func() {
 		defer func() {
 			if err := recover(); err != nil {
 				//task.taskService.Logger().Debug(task.TaskID, " loop handler recover error => ", err)
-				if task.taskService.ExceptionHandler != nil {
+				//the loop goes on after a panic
+				if task.taskService != nil && task.taskService.ExceptionHandler != nil {
 					task.taskService.ExceptionHandler(task.Context(), fmt.Errorf("%v", err))
 				}
-				//goroutine panic, restart cron task
-				startTickTask(task)
 			}
 		}()
 		if task.taskService != nil && task.taskService.OnBeforeHandler != nil {
@@ -76,19 +83,44 @@ func startTickTask(task *TimerTask) {
 			task.taskService.OnEndHandler(task.Context())
 		}
 	}
+	stopped := func() bool {
+		select {
+		case <-quit:
+			return true
+		default:
+			return false
+		}
+	}
 	dofunc := func() {
-		task.TimeTicker = time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
-		handler()
-		for {
-			<-task.TimeTicker.C
+		//等待设定的延时毫秒
+		if task.DueTime > 0 {
+			due := time.NewTimer(time.Duration(task.DueTime) * time.Millisecond)
+			defer due.Stop()
+
+			select {
+			case <-due.C:
+			case <-quit:
+				return
+			}
+		}
+
+		ticker := time.NewTicker(time.Duration(task.Interval) * time.Millisecond)
+		defer ticker.Stop()
+
+		task.mutex.Lock()
+		task.TimeTicker = ticker
+		task.mutex.Unlock()
+
+		for !stopped() {
 			handler()
+
+			select {
+			case <-ticker.C:
+			case <-quit:
+				return
+			}
 		}
 	}
-	//等待设定的延时毫秒
-	if task.DueTime > 0 {
-		go time.AfterFunc(time.Duration(task.DueTime)*time.Millisecond, dofunc)
-	} else {
-		go dofunc()
-	}
 
+	go dofunc()
 }
-- 
2.43.0


From fac46894f3eccd70396b93fe986f1c16c4818b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:44 +0000
Subject: [PATCH 31/53] fix: a cron express with a step of 0 must not loop
 forever

---
 lib/timer/timer_express.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/timer/timer_express.go b/lib/timer/timer_express.go
index f19df0e..943a845 100644
--- a/lib/timer/timer_express.go
+++ b/lib/timer/timer_express.go
@@ -100,7 +100,7 @@ func parseExpress(express, expressType string) (times *ExpressSet) {
 	var err error
 	if strings.Contains(express, "/") {
 		frequency, err = strconv.Atoi(subString(express, strings.Index(express, "/")+1, -1))
-		if err != nil {
+		if err != nil || frequency <= 0 {
 			return nil
 		}
 		express = subString(express, 0, strings.Index(express, "/"))
-- 
2.43.0


From 5f4c905dac1402b6314d0f391098ac68a493b8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:23 +0000
Subject: [PATCH 32/53] fix: only accept tokens signed with the algorithm they
 are created with

---
 lib/token/token.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/token/token.go b/lib/token/token.go
index 177e5cd..ca995f2 100644
--- a/lib/token/token.go
+++ b/lib/token/token.go
@@ -47,7 +47,10 @@ func Create(entityID string) (string, error) {
 // TokenParse - 从被包装过的 token 中获取 entityID
 func Parse(token string) (string, error) {
 	c := &Claims{}
-	_, err := jwt.ParseWithClaims(token, c, func(*jwt.Token) (interface{}, error) {
+	_, err := jwt.ParseWithClaims(token, c, func(t *jwt.Token) (interface{}, error) {
+		if t.Method != jwt.SigningMethodHS256 {
+			return nil, fmt.Errorf("unexpected signing method %v", t.Header["alg"])
+		}
 		return makeTokenKey(), nil
 	})
 
-- 
2.43.0


From 94ebc6855794504844e499efb8608bab2db50911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 33/53] fix: an error with an empty message must not count as
 OK

---
 lib/errcode/errcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/errcode/errcode.go b/lib/errcode/errcode.go
index f1d93d5..f618219 100644
--- a/lib/errcode/errcode.go
+++ b/lib/errcode/errcode.go
@@ -86,7 +86,7 @@ func Cause(e error) Codes {
 	if ok {
 		return ec
 	}
-	return String(e.Error())
+	return Code{-1, e.Error(), ""} // not String, an error without text is an error as well
 }
 
 // Equal equal a and b by code int.
-- 
2.43.0


From 71715adacba88e7bc207f41761e300b7768fc87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 34/53] fix: a huge step of a cron express must not overflow
 into other values

---
 lib/timer/timer_express.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/timer/timer_express.go b/lib/timer/timer_express.go
index 943a845..c3a0250 100644
--- a/lib/timer/timer_express.go
+++ b/lib/timer/timer_express.go
@@ -103,6 +103,9 @@ func parseExpress(express, expressType string) (times *ExpressSet) {
 		if err != nil || frequency <= 0 {
 			return nil
 		}
+		if frequency > V_Max {
+			frequency = V_Max + 1 // only the first value is left, and larger steps would overflow
+		}
 		express = subString(express, 0, strings.Index(express, "/"))
 	}
 
-- 
2.43.0


From a1547a8113b3b66d96d9a3aa7e505f9f930ebecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 35/53] fix: GetCmdsByteSlice must report the error it stops at

---
 3rd/redis/client_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/3rd/redis/client_utils.go b/3rd/redis/client_utils.go
index 171c996..c59d2bf 100644
--- a/3rd/redis/client_utils.go
+++ b/3rd/redis/client_utils.go
@@ -12,8 +12,9 @@ func GetCmdsByteSlice(cmds []redis.Cmder) ([][]byte, error) {
 	var bts [][]byte
 	var err error
 	for _, cmder := range cmds {
+		var bytes []byte
 		cmd := cmder.(*redis.StringCmd)
-		bytes, err := cmd.Bytes()
+		bytes, err = cmd.Bytes()
 		if err != nil {
 			goto EXT
 		}
-- 
2.43.0


From 04eace35e8c8f554d65662b7b31242aec97534a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:53 +0000
Subject: [PATCH 36/53] fix: return 8 bit custom fields in the type they were
 stored as

---
 router/msg/msg_custom_map.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/router/msg/msg_custom_map.go b/router/msg/msg_custom_map.go
index f52f8e2..f5ccb99 100644
--- a/router/msg/msg_custom_map.go
+++ b/router/msg/msg_custom_map.go
@@ -115,6 +115,14 @@ func GetReqCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
@@ -191,6 +199,14 @@ func GetResCustomField[T any](msg *Wrapper, key string) T {
 		if f, ok := val.(float64); ok {
 			return any(uint(f)).(T)
 		}
+	case int8:
+		if f, ok := val.(float64); ok {
+			return any(int8(f)).(T)
+		}
+	case uint8:
+		if f, ok := val.(float64); ok {
+			return any(uint8(f)).(T)
+		}
 	case int16:
 		if f, ok := val.(float64); ok {
 			return any(int16(f)).(T)
-- 
2.43.0


From 5a7b7d875e0dc73d38f9eb7b70a15e39f25570c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:57 +0000
Subject: [PATCH 37/53] fix: an actor timer stopped and reset before its due
 time must fire at the interval at once

---
 core/actor/actor_runtime_impl.go | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index 8a795a3..d8dea35 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -136,24 +136,22 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 		defer info.Stop()
 
 		// 如果 dueTime 大于 0，使用 dueTime 进行第一次触发
+		var dueCh <-chan time.Time
 		if info.dueTime > 0 {
 			due := time.NewTimer(info.dueTime)
 			defer due.Stop()
-
-			select {
-			case <-due.C:
-			case <-a.shutdownCh:
-				return
-			}
-		}
-
-		if tick, ok := info.due(); ok {
+			dueCh = due.C
+		} else if tick, ok := info.due(); ok {
 			fire(tick)
 		}
 
 		for {
 			select {
-			case <-info.ticker.C:
+			case <-dueCh:
+				if tick, ok := info.due(); ok {
+					fire(tick)
+				}
+			case <-info.ticker.C: // also before dueTime, when the timer was stopped and reset meanwhile
 				if tick, ok := info.tick(); ok {
 					fire(tick)
 				}
-- 
2.43.0


From 5ed3eedab03616ff88d11080ef2230d697512d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:05 +0000
Subject: [PATCH 38/53] fix: a type record whose id record is gone must be
 cleaned up when it is found stale

---
 core/addressbook/addressbook_impl.go | 29 ++++++++++++++++++++++++++++
 core/node/system_impl.go             |  7 ++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 3b217ac..6a299ad 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -165,6 +165,35 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	return err
 }
 
+// UnregisterType removes the type record of an actor that has no id record (its process died while unregistering it),
+// and releases the weight that is still accounted for it
+func (ab *AddressBook) UnregisterType(ctx context.Context, info core.AddressInfo, weight int) error {
+	exists, err := trdredis.HExists(ctx, def.RedisAddressbookIDField, info.ActorId).Result()
+	if err != nil {
+		return fmt.Errorf("addressbook.unregister type hexists err %v", err.Error())
+	}
+	if exists {
+		return fmt.Errorf("actor id %v is registered", info.ActorId)
+	}
+
+	addrJSON, _ := json.Marshal(info)
+	pipe := trdredis.Pipeline()
+	removed := pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
+	if _, err = pipe.Exec(ctx); err != nil {
+		return fmt.Errorf("addressbook.unregister type srem err %v", err.Error())
+	}
+	if removed.Val() == 0 {
+		return nil
+	}
+
+	pipe = trdredis.Pipeline()
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
+	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
+	_, err = pipe.Exec(ctx)
+
+	return err
+}
+
 // GetByID get actor address by id
 func (ab *AddressBook) GetByID(ctx context.Context, id string) (core.AddressInfo, error) {
 
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index cee1bc7..273e304 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -381,7 +381,12 @@ func (sys *NormalSystem) removeStaleRecord(ctx context.Context, info core.Addres
 		weight = ac.Weight
 	}
 
-	if err := sys.addressbook.Unregister(ctx, info.ActorId, weight); err != nil {
+	err := sys.addressbook.Unregister(ctx, info.ActorId, weight)
+	if err != nil && info.ActorTy != "" {
+		// the id record may be gone already
+		err = sys.addressbook.UnregisterType(ctx, info, weight)
+	}
+	if err != nil {
 		log.WarnF("braid.system unregister stale actor record err actorTy %v actorID %v err %v", actorType, info.ActorId, err)
 	}
 	log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
-- 
2.43.0


From c4db1ca44527ba3e75fb8b957ff54c1eb1cdf565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:23 +0000
Subject: [PATCH 39/53] fix: closing a topic must not remove a message or
 channel that arrives meanwhile

---
 lib/pubsub/ps_topic.go | 49 +++++++++++++++++-------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/lib/pubsub/ps_topic.go b/lib/pubsub/ps_topic.go
index 6c242b2..7edd7db 100644
--- a/lib/pubsub/ps_topic.go
+++ b/lib/pubsub/ps_topic.go
@@ -3,7 +3,6 @@ package pubsub
 import (
 	"context"
 	"fmt"
-	"strings"
 	"sync"
 
 	thdredis "github.com/pojol/braid/3rd/redis"
@@ -104,40 +103,32 @@ func (rt *Topic) Sub(ctx context.Context, channel string, opts ...interface{}) (
 func (rt *Topic) Close() error {
 
 	ctx := context.Background()
-	groups, err := thdredis.XInfoGroups(ctx, rt.topic).Result()
-	if err != nil && err != redis.Nil {
-		// 忽略 "no such key" 错误
-		if !strings.Contains(err.Error(), "no such key") {
-			return fmt.Errorf("failed to get XInfoGroups: %w", err)
-		}
-		groups = []redis.XInfoGroup{} // 设置为空切片
-		err = nil
-	}
-
-	if len(groups) == 0 {
-		cnt, err := thdredis.XLen(ctx, rt.topic).Result()
-		if err != nil && err != redis.Nil {
-			return fmt.Errorf("failed to get XLen: %w", err)
-		}
 
-		if cnt == 0 {
-			cleanpipe := thdredis.Pipeline()
-			cleanpipe.Del(ctx, rt.topic)
-			cleanpipe.SRem(ctx, BraidPubsubTopic, rt.topic)
+	// one step, so that neither a message nor a channel that arrives meanwhile goes with the topic
+	removed, err := thdredis.ScriptRun(ctx, closeScript, []string{rt.topic, BraidPubsubTopic}, rt.topic)
+	if err != nil {
+		return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
+	}
 
-			_, err = cleanpipe.Exec(ctx)
-			if err != nil {
-				return fmt.Errorf("failed to clean topic %s: %w", rt.topic, err)
-			}
-			log.InfoF("[braid.pubsub] Topic %v cleaned successfully", rt.topic)
-		} else {
-			log.InfoF("[braid.pubsub] Topic %v not cleaned: non-empty stream", rt.topic)
-		}
+	if removed == int64(1) {
+		log.InfoF("[braid.pubsub] Topic %v cleaned successfully", rt.topic)
+	} else {
+		log.InfoF("[braid.pubsub] Topic %v not cleaned: it has messages or channels", rt.topic)
 	}
 
-	return err
+	return nil
 }
 
+var closeScript = redis.NewScript(`
+if redis.call("exists", KEYS[1]) == 1 then
+	if #redis.call("xinfo", "groups", KEYS[1]) > 0 or redis.call("xlen", KEYS[1]) > 0 then
+		return 0
+	end
+	redis.call("del", KEYS[1])
+end
+redis.call("srem", KEYS[2], ARGV[1])
+return 1`)
+
 func (rt *Topic) getOrCreateChannel(ctx context.Context, name string, p ChannelParm) (*Channel, error) {
 
 	//channel, ok := rt.channelMap[name]
-- 
2.43.0


From 80aad6bfe658cbd8c20a5524cebaf503a572415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:03 +0000
Subject: [PATCH 40/53] fix: ConnHGet must use the context that it is given

---
 3rd/redis/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/3rd/redis/client.go b/3rd/redis/client.go
index 38af08a..dc94216 100644
--- a/3rd/redis/client.go
+++ b/3rd/redis/client.go
@@ -85,7 +85,7 @@ func ConnHGet(conn *redis.Conn, ctx context.Context, key, field string) (string,
 		defer span.End(ctx)
 	}
 
-	cmd := conn.HGet(context.TODO(), key, field)
+	cmd := conn.HGet(ctx, key, field)
 	return cmd.Val(), cmd.Err()
 }
 
-- 
2.43.0


From d3bddba72e4fd8fe11b766e59fd83e3b506158a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:03 +0000
Subject: [PATCH 41/53] fix: a local call must not read its message while the
 actor may hand it on

---
 core/actor/actor_runtime_impl.go |  8 +++++---
 core/node/system_impl.go         | 18 +++++++++++-------
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index d8dea35..d96a9e3 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -394,22 +394,24 @@ func (a *Runtime) update() {
 			}
 
 			func() {
+				wg := mw.GetWg() // the context changes when the handler hands the message on
 				defer func() {
 					if r := recover(); r != nil {
 						a.recovery(r)
 					}
 
-					mw.GetWg().Done()
+					wg.Done()
 				}()
 
+				event := mw.Req.Header.Event
 				a.chainsMutex.RLock()
-				chain, ok := a.chains[mw.Req.Header.Event]
+				chain, ok := a.chains[event]
 				a.chainsMutex.RUnlock()
 
 				if ok {
 					err := chain.Execute(mw)
 					if err != nil {
-						log.WarnF("actor %v event %v execute err %v", a.Id, mw.Req.Header.Event, err)
+						log.WarnF("actor %v event %v execute err %v", a.Id, event, err)
 					}
 				} else {
 					log.WarnF("actor %v No handlers for message type: %s", a.Id, mw.Req.Header.Event)
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 273e304..2df9d44 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -394,9 +394,13 @@ func (sys *NormalSystem) removeStaleRecord(ctx context.Context, info core.Addres
 
 func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 
-	root := mw.GetWg().Count() == 0
+	// Once the actor has the message it may hand it on, which changes its context and header
+	ctx, wg := mw.Ctx, mw.GetWg()
+	event, id := mw.Req.Header.Event, mw.Req.Header.TargetActorID
+
+	root := wg.Count() == 0
 	if root {
-		log.InfoF("braid.system local call root event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
+		log.InfoF("braid.system local call root event %v id %v", event, id)
 		done := make(chan struct{})
 		mw.Done = done
 
@@ -406,7 +410,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 		}
 
 		go func() {
-			mw.GetWg().Wait()
+			wg.Wait()
 			close(done)
 		}()
 
@@ -420,14 +424,14 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 			return nil
 		case <-timeout.C:
 			log.WarnF("braid.system wait timeout for event %v id %v, remaining tasks: %d",
-				mw.Req.Header.Event, mw.Req.Header.TargetActorID, mw.GetWg().Count())
+				event, id, wg.Count())
 			if mw.Err == nil {
 				mw.Err = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
 			}
 			return nil
-		case <-mw.Ctx.Done():
+		case <-ctx.Done():
 			timeoutErr := fmt.Errorf("braid actor %v message %v processing timed out",
-				mw.Req.Header.TargetActorID, mw.Req.Header.Event)
+				id, event)
 			if mw.Err != nil {
 				timeoutErr = fmt.Errorf("%w: %v", mw.Err, timeoutErr)
 			}
@@ -435,7 +439,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 			return timeoutErr
 		}
 	} else {
-		log.InfoF("braid.system local call received event %v id %v", mw.Req.Header.Event, mw.Req.Header.TargetActorID)
+		log.InfoF("braid.system local call received event %v id %v", event, id)
 		return actorp.Received(mw)
 	}
 }
-- 
2.43.0


From b34031e55b1c64311fadbca5868cae7c5d717f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:03 +0000
Subject: [PATCH 42/53] fix: the next call with the same message must not be
 traced as part of the previous one

---
 core/node/system_impl.go | 61 +++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index 2df9d44..a5ab526 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -275,10 +275,13 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	var actor core.IActor
 	var err error
 
+	held := false // by a local actor that may still use the message when this returns
 	if sys.trac != nil {
 		span, err := sys.trac.GetSpan(span.SystemCall)
 		if err == nil {
-			mw.Ctx = span.Begin(mw.Ctx)
+			callerCtx := mw.Ctx
+			spanCtx := span.Begin(callerCtx)
+			mw.Ctx = spanCtx
 
 			span.SetTag("orgActor", mw.Req.Header.OrgActorType)
 			span.SetTag("tarActor", actorType)
@@ -286,7 +289,13 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 			span.SetTag("method", "call")
 			span.SetTag("id", idOrSymbol)
 
-			defer span.End(mw.Ctx)
+			defer func() {
+				span.End(spanCtx)
+				if !held {
+					// what the caller does next with the message is not caused by this call
+					mw.Ctx = callerCtx
+				}
+			}()
 		}
 	}
 
@@ -302,7 +311,8 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 		actor, ok := sys.actoridmap[info.ActorId]
 		sys.RUnlock()
 		if ok {
-			return sys.localCall(actor, mw)
+			held, err = sys.localCall(actor, mw)
+			return err
 		}
 	case def.SymbolLocalFirst:
 		actor, info, err = sys.findLocalOrWildcardActor(mw.Ctx, actorType)
@@ -311,7 +321,8 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 		}
 		if actor != nil {
 			// Local call
-			return sys.localCall(actor, mw)
+			held, err = sys.localCall(actor, mw)
+			return err
 		}
 	default:
 		// First, check if it's a local call
@@ -320,7 +331,8 @@ func (sys *NormalSystem) Call(idOrSymbol, actorType, event string, mw *msg.Wrapp
 		sys.RUnlock()
 
 		if ok {
-			return sys.localCall(actorp, mw)
+			held, err = sys.localCall(actorp, mw)
+			return err
 		}
 
 		// If not local, get from addressbook
@@ -392,7 +404,8 @@ func (sys *NormalSystem) removeStaleRecord(ctx context.Context, info core.Addres
 	log.WarnF("braid.system found inconsistent actor record actorTy %v actorID %v call ev %v, cleaned up", actorType, info.ActorId, event)
 }
 
-func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
+// localCall also reports whether the actor may still use the message after it has returned
+func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) (bool, error) {
 
 	// Once the actor has the message it may hand it on, which changes its context and header
 	ctx, wg := mw.Ctx, mw.GetWg()
@@ -406,7 +419,7 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 
 		if err := actorp.Received(mw); err != nil {
 			close(done)
-			return err
+			return false, err
 		}
 
 		go func() {
@@ -421,14 +434,14 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 		select {
 		case <-done:
 			// 正常完成
-			return nil
+			return false, nil
 		case <-timeout.C:
 			log.WarnF("braid.system wait timeout for event %v id %v, remaining tasks: %d",
 				event, id, wg.Count())
 			if mw.Err == nil {
 				mw.Err = fmt.Errorf("braid.system wait timeout, some tasks did not complete")
 			}
-			return nil
+			return true, nil
 		case <-ctx.Done():
 			timeoutErr := fmt.Errorf("braid actor %v message %v processing timed out",
 				id, event)
@@ -436,11 +449,12 @@ func (sys *NormalSystem) localCall(actorp core.IActor, mw *msg.Wrapper) error {
 				timeoutErr = fmt.Errorf("%w: %v", mw.Err, timeoutErr)
 			}
 			mw.Err = timeoutErr
-			return timeoutErr
+			return true, timeoutErr
 		}
 	} else {
 		log.InfoF("braid.system local call received event %v id %v", event, id)
-		return actorp.Received(mw)
+		err := actorp.Received(mw)
+		return err == nil, err
 	}
 }
 
@@ -474,10 +488,13 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 	var actor core.IActor
 	var err error
 
+	held := false // by a local actor that may still use the message when this returns
 	if sys.trac != nil {
 		span, err := sys.trac.GetSpan(span.SystemCall)
 		if err == nil {
-			mw.Ctx = span.Begin(mw.Ctx)
+			callerCtx := mw.Ctx
+			spanCtx := span.Begin(callerCtx)
+			mw.Ctx = spanCtx
 
 			span.SetTag("orgActor", mw.Req.Header.OrgActorType)
 			span.SetTag("tarActor", actorType)
@@ -485,7 +502,13 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 			span.SetTag("method", "send")
 			span.SetTag("id", idOrSymbol)
 
-			defer span.End(mw.Ctx)
+			defer func() {
+				span.End(spanCtx)
+				if !held {
+					// what the caller does next with the message is not caused by this call
+					mw.Ctx = callerCtx
+				}
+			}()
 		}
 	}
 
@@ -501,7 +524,9 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 		actor, ok := sys.actoridmap[info.ActorId]
 		sys.RUnlock()
 		if ok {
-			return actor.Received(mw)
+			err = actor.Received(mw)
+			held = err == nil
+			return err
 		}
 	case def.SymbolLocalFirst:
 		actor, info, err = sys.findLocalOrWildcardActor(mw.Ctx, actorType)
@@ -509,7 +534,9 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 			return err
 		}
 		if actor != nil {
-			return actor.Received(mw)
+			err = actor.Received(mw)
+			held = err == nil
+			return err
 		}
 	default:
 		// First, check if it's a local call
@@ -518,7 +545,9 @@ func (sys *NormalSystem) Send(idOrSymbol, actorType, event string, mw *msg.Wrapp
 		sys.RUnlock()
 
 		if ok {
-			return actorp.Received(mw)
+			err = actorp.Received(mw)
+			held = err == nil
+			return err
 		}
 
 		// If not local, get from addressbook
-- 
2.43.0


From 7f70af83b289c8c652c85c049ca807dec5ebbcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:55 +0000
Subject: [PATCH 43/53] fix: an exiting actor must not be left with a
 subscription that nobody stops

---
 core/actor/actor_runtime_impl.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index d96a9e3..f75e6fc 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -41,6 +41,8 @@ type Runtime struct {
 
 	channels      []*pubsub.Channel
 	channelsMutex sync.Mutex
+	exiting       bool           // no further channel, guarded by channelsMutex
+	subscribing   sync.WaitGroup // calls of Sub that may still add a channel
 
 	timers      map[core.ITimer]struct{}
 	timersMutex sync.Mutex
@@ -186,6 +188,16 @@ func (a *Runtime) CancelTimer(t core.ITimer) {
 //	callback: Callback function for successful subscription
 func (a *Runtime) Sub(topic string, channel string, callback func(ctx core.ActorContext) core.IChain, opts ...pubsub.TopicOption) error {
 
+	// Exit stops every channel, so it has to know of this one, or there must not be one
+	a.channelsMutex.Lock()
+	if a.exiting {
+		a.channelsMutex.Unlock()
+		return fmt.Errorf("failed to subscribe to topic %s: actor %v is closed", topic, a.Id)
+	}
+	a.subscribing.Add(1)
+	a.channelsMutex.Unlock()
+	defer a.subscribing.Done()
+
 	ch, err := a.Sys.Sub(topic, channel, opts...)
 	if err != nil {
 		return fmt.Errorf("failed to subscribe to topic %s: %w", topic, err)
@@ -444,6 +456,11 @@ func (a *Runtime) Exit() {
 	log.DebugF("[braid.actor] %s exiting state %v remaining msg %v", a.Id, atomic.LoadInt32(&a.closed), a.q.Count())
 
 	// Stop consuming first, so that what was fetched already is handled as well
+	a.channelsMutex.Lock()
+	a.exiting = true
+	a.channelsMutex.Unlock()
+	a.subscribing.Wait()
+
 	a.channelsMutex.Lock()
 	channels := append([]*pubsub.Channel{}, a.channels...)
 	a.channelsMutex.Unlock()
-- 
2.43.0


From d22346ef242b8ad7c96bb6e4ce4d2b04c413b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:36 +0000
Subject: [PATCH 44/53] fix: the acceptor must not read a message that its
 handler may still hand on

---
 core/node/system_acceptor.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/node/system_acceptor.go b/core/node/system_acceptor.go
index df1d585..ead95dd 100644
--- a/core/node/system_acceptor.go
+++ b/core/node/system_acceptor.go
@@ -119,13 +119,16 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 		route = s.sys.Send
 	}
 
+	// A handler that outlives the call may hand the message on, which changes the header
+	event := req.Msg.Header.Event
+
 	err := route(
 		req.Msg.Header.TargetActorID,
 		req.Msg.Header.TargetActorType,
-		req.Msg.Header.Event, routermsg)
+		event, routermsg)
 
 	if err != nil {
-		log.InfoF("listen routing %v err %v", req.Msg.Header.Event, err.Error())
+		log.InfoF("listen routing %v err %v", event, err.Error())
 		return nil, err
 	}
 
@@ -134,7 +137,7 @@ func (s *listen) Routing(ctx context.Context, req *router.RouteReq) (*router.Rou
 	}
 
 	if routermsg.Err != nil {
-		log.InfoF("listen routing %v message err %v", req.Msg.Header.Event, routermsg.Err.Error())
+		log.InfoF("listen routing %v message err %v", event, routermsg.Err.Error())
 		return nil, routermsg.Err
 	}
 
-- 
2.43.0


From c8da020d17c77ca8db7966436392babee1844879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:58 +0000
Subject: [PATCH 45/53] fix: the caller options must reach the encoder of the
 logger

---
 lib/log/options.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/log/options.go b/lib/log/options.go
index b6a23c5..69b91f9 100644
--- a/lib/log/options.go
+++ b/lib/log/options.go
@@ -247,13 +247,6 @@ func NewLogger(opts ...Option) (*zap.Logger, error) {
 		}
 	}
 
-	core := zapcore.NewCore(
-		zapcore.NewJSONEncoder(*options.EncoderConf), // 编码器配置
-		ws,                                  // 输出方式
-		zap.NewAtomicLevelAt(options.Level), // 日志级别
-	)
-
-	var logger *zap.Logger
 	if options.Caller {
 		if options.CallerFunc {
 			options.EncoderConf.EncodeCaller = func(caller zapcore.EntryCaller, enc zapcore.PrimitiveArrayEncoder) {
@@ -265,6 +258,16 @@ func NewLogger(opts ...Option) (*zap.Logger, error) {
 			}
 		}
 		options.EncoderConf.FunctionKey = zapcore.OmitKey
+	}
+
+	core := zapcore.NewCore(
+		zapcore.NewJSONEncoder(*options.EncoderConf), // 编码器配置
+		ws,                                  // 输出方式
+		zap.NewAtomicLevelAt(options.Level), // 日志级别
+	)
+
+	var logger *zap.Logger
+	if options.Caller {
 		logger = zap.New(core, zap.AddCallerSkip(options.CallerSkip), zap.AddCaller())
 	} else {
 		logger = zap.New(core)
-- 
2.43.0


From 337af95877a521f1087ec0881eed3b92a08135bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:58 +0000
Subject: [PATCH 46/53] fix: WriteJSON must not leave the tail of a longer file

---
 utils/file/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/file/file.go b/utils/file/file.go
index 022f103..b216e67 100644
--- a/utils/file/file.go
+++ b/utils/file/file.go
@@ -74,7 +74,7 @@ func SaveFile(dat []byte, fileName string) error {
 
 // WriteJSON 保存json文件
 func WriteJSON(path string, jsonByte []byte) {
-	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0755)
+	fp, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
 	if err != nil {
 		log.Fatal(err)
 		return
-- 
2.43.0


From e421f49efcd7a9be36fb21cd3e52aacdde5256f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:34 +0000
Subject: [PATCH 47/53] fix: a directory must forget an actor whose record
 another node has removed

---
 core/addressbook/addressbook_impl.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 6a299ad..7b7fd13 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -129,6 +129,9 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	// get address info first
 	addrJSON, err := trdredis.HGet(ctx, def.RedisAddressbookIDField, id).Result()
 	if err != nil {
+		if err == redis.Nil {
+			ab.forget(id)
+		}
 		return fmt.Errorf("address not found for id: %s", id)
 	}
 
@@ -144,6 +147,7 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("addressbook.unregister hdel err %v", err.Error())
 	}
 	if deleted == 0 {
+		ab.forget(id)
 		return fmt.Errorf("address not found for id: %s", id)
 	}
 
@@ -165,6 +169,16 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 	return err
 }
 
+// forget drops the local record of an actor whose shared record another node has removed
+func (ab *AddressBook) forget(id string) {
+	ab.Lock()
+	defer ab.Unlock()
+
+	if ab.IDMap[id] { // not a registration in progress
+		delete(ab.IDMap, id)
+	}
+}
+
 // UnregisterType removes the type record of an actor that has no id record (its process died while unregistering it),
 // and releases the weight that is still accounted for it
 func (ab *AddressBook) UnregisterType(ctx context.Context, info core.AddressInfo, weight int) error {
-- 
2.43.0


From 78e9a67e0b181cff629fde19b23d0e82c1c3552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:34:39 +0000
Subject: [PATCH 48/53] fix: a tick received before a Reset must not fire the
 timer early

---
 core/actor/actor_runtime_impl.go |  4 ++--
 core/actor/actor_timer.go        | 24 +++++++++++++++---------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/core/actor/actor_runtime_impl.go b/core/actor/actor_runtime_impl.go
index f75e6fc..552f8bc 100644
--- a/core/actor/actor_runtime_impl.go
+++ b/core/actor/actor_runtime_impl.go
@@ -153,8 +153,8 @@ func (a *Runtime) OnTimer(dueTime int64, interval int64, f func(interface{}) err
 				if tick, ok := info.due(); ok {
 					fire(tick)
 				}
-			case <-info.ticker.C: // also before dueTime, when the timer was stopped and reset meanwhile
-				if tick, ok := info.tick(); ok {
+			case at := <-info.ticker.C: // also before dueTime, when the timer was stopped and reset meanwhile
+				if tick, ok := info.tick(at); ok {
 					fire(tick)
 				}
 			case <-a.shutdownCh:
diff --git a/core/actor/actor_timer.go b/core/actor/actor_timer.go
index 857e48e..53f04da 100644
--- a/core/actor/actor_timer.go
+++ b/core/actor/actor_timer.go
@@ -19,8 +19,9 @@ type TimerInfo struct {
 	mutex    sync.Mutex // 保护以下字段
 	ticker   *time.Ticker
 	interval time.Duration
-	waiting  bool   // 还在等待 dueTime
-	gen      uint64 // 每次 Stop / Reset 后递增，使已经排队的 tick 失效
+	waiting  bool      // 还在等待 dueTime
+	first    time.Time // 最近一次启动 ticker 后第一次触发的时间，早于它的是之前的 tick
+	gen      uint64    // 每次 Stop / Reset 后递增，使已经排队的 tick 失效
 }
 
 // timerTick is a tick on its way to the actor goroutine
@@ -66,13 +67,19 @@ func (t *TimerInfo) Reset(interval time.Duration) bool {
 	}
 
 	t.gen++
-	t.nextTick.Store(time.Now().Add(t.interval))
 	t.ticker.Stop()
 	t.drain()
-	t.ticker.Reset(t.interval)
+	t.start()
 	return true
 }
 
+// start starts the ticker, the mutex is held
+func (t *TimerInfo) start() {
+	t.first = time.Now().Add(t.interval)
+	t.nextTick.Store(t.first)
+	t.ticker.Reset(t.interval)
+}
+
 // drain drops an expiry of the ticker that nobody has seen yet
 func (t *TimerInfo) drain() {
 	select {
@@ -113,18 +120,17 @@ func (t *TimerInfo) due() (timerTick, bool) {
 	}
 	t.waiting = false
 	if t.interval > 0 {
-		t.nextTick.Store(time.Now().Add(t.interval))
-		t.ticker.Reset(t.interval)
+		t.start()
 	}
 	return timerTick{timer: t, gen: t.gen}, t.dueTime > 0 || t.interval <= 0
 }
 
-// tick reports whether an expiry of the ticker still counts
-func (t *TimerInfo) tick() (timerTick, bool) {
+// tick reports whether an expiry of the ticker still counts, one that was received before a Reset does not
+func (t *TimerInfo) tick(at time.Time) (timerTick, bool) {
 	t.mutex.Lock()
 	defer t.mutex.Unlock()
 
-	if !t.active.Load() || t.waiting {
+	if !t.active.Load() || t.waiting || at.Before(t.first) {
 		return timerTick{}, false
 	}
 	t.nextTick.Store(time.Now().Add(t.interval))
-- 
2.43.0


From 5121db701a6dd8f7656beb98a22a71da2777d1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:40:40 +0000
Subject: [PATCH 49/53] fix: an unregistration must not take the directory
 record of a concurrent new registration of the id

---
 core/node/system_impl.go | 49 +++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index a5ab526..c4a3414 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -25,9 +25,10 @@ import (
 type NormalSystem struct {
 	addressbook *addressbook.AddressBook
 	actoridmap  map[string]core.IActor
-	registering map[string]string // id -> type, registrations in progress
-	recordMutex sync.RWMutex      // read-held while an actor and its address book record are added or removed
-	limitMutex  sync.Mutex        // serializes the registrations of types with a global quantity limit
+	registering map[string]string        // id -> type, registrations in progress
+	leaving     map[string]chan struct{} // id -> closed when the unregistration in progress is complete
+	recordMutex sync.RWMutex             // read-held while an actor and its address book record are added or removed
+	limitMutex  sync.Mutex               // serializes the registrations of types with a global quantity limit
 	client      *grpc.Client
 	ps          *pubsub.Pubsub
 	acceptor    *Acceptor
@@ -53,6 +54,7 @@ func buildSystemWithOption(nodId, nodeIp string, nodePort int, loader core.IActo
 	sys := &NormalSystem{
 		actoridmap:  make(map[string]core.IActor),
 		registering: make(map[string]string),
+		leaving:     make(map[string]chan struct{}),
 		nodeID:      nodId,
 		nodeIP:      nodeIp,
 		nodePort:    nodePort,
@@ -108,7 +110,7 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	}
 
 	// Reserve the id, so that of several concurrent registrations only one proceeds
-	sys.Lock()
+	sys.lockID(builder.GetID())
 	if _, ok := sys.actoridmap[builder.GetID()]; ok {
 		sys.Unlock()
 		return nil, core.ErrActorRegisterRepeat
@@ -156,6 +158,19 @@ func (sys *NormalSystem) Register(ctx context.Context, builder core.IActorBuilde
 	return actor, nil
 }
 
+// lockID locks sys when no unregistration of the id is in progress, which would take the record of a new actor with it
+func (sys *NormalSystem) lockID(id string) {
+	for {
+		sys.Lock()
+		left, ok := sys.leaving[id]
+		if !ok {
+			return
+		}
+		sys.Unlock()
+		<-left
+	}
+}
+
 // registerAddress publishes the actor in the address book, within its global quantity limit
 func (sys *NormalSystem) registerAddress(ctx context.Context, builder core.IActorBuilder) error {
 	limit := builder.GetGlobalQuantityLimit()
@@ -225,17 +240,25 @@ func (sys *NormalSystem) Unregister(id, ty string) error {
 	sys.recordMutex.RLock()
 	defer sys.recordMutex.RUnlock()
 
-	if exists {
-		// Remove the actor from the map
-		sys.Lock()
-		if current, ok := sys.actoridmap[id]; ok && current != actor {
-			// A concurrent unregister removed the actor, and the id already belongs to a new one
-			sys.Unlock()
-			return nil
-		}
-		delete(sys.actoridmap, id)
+	// Remove the actor from the map
+	sys.lockID(id)
+	_, registering := sys.registering[id]
+	if current, ok := sys.actoridmap[id]; registering || ok && current != actor {
+		// A concurrent unregister removed the actor, and the id already belongs to a new one
 		sys.Unlock()
+		return nil
 	}
+	delete(sys.actoridmap, id)
+	left := make(chan struct{})
+	sys.leaving[id] = left
+	sys.Unlock()
+
+	defer func() {
+		sys.Lock()
+		delete(sys.leaving, id)
+		sys.Unlock()
+		close(left)
+	}()
 
 	// Unregister from the address book
 	ac := sys.factory.Get(ty)
-- 
2.43.0


From d18dfeb34efb5a422b6fa6da3a66777f610431e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:55 +0000
Subject: [PATCH 50/53] fix: a consumer that joins a channel while the last one
 closes keeps the channel

Close counted the consumers of the group and removed the group in two
steps, and a new consumer did not count before its first read: its group
could be removed after Sub had succeeded, and the subscriber never got a
message. The consumer is now created by Sub, and Close removes the group
in one step, only without consumers.
---
 3rd/redis/client.go      |  8 ++++++++
 lib/pubsub/ps_channel.go | 36 +++++++++++++++++++++++-------------
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/3rd/redis/client.go b/3rd/redis/client.go
index dc94216..e2c7e6a 100644
--- a/3rd/redis/client.go
+++ b/3rd/redis/client.go
@@ -344,6 +344,14 @@ func XGroupCreate(ctx context.Context, key, group, start string) *redis.StatusCm
 	return client.XGroupCreate(ctx, key, group, start)
 }
 
+func XGroupCreateConsumer(ctx context.Context, key, group, consumer string) *redis.IntCmd {
+	span, err := doTracing(ctx, spanTag{"cmd", "XGroupCreateConsumer"}, spanTag{"key", key})
+	if err == nil {
+		defer span.End(ctx)
+	}
+	return client.XGroupCreateConsumer(ctx, key, group, consumer)
+}
+
 func XGroupDelConsumer(ctx context.Context, key, group, consumer string) *redis.IntCmd {
 	span, err := doTracing(ctx, spanTag{"cmd", "XGroupDelConsumer"}, spanTag{"key", key})
 	if err == nil {
diff --git a/lib/pubsub/ps_channel.go b/lib/pubsub/ps_channel.go
index 55072a6..35e44d6 100644
--- a/lib/pubsub/ps_channel.go
+++ b/lib/pubsub/ps_channel.go
@@ -41,9 +41,20 @@ func newChannel(ctx context.Context, topic, channel string, p ChannelParm) (*Cha
 	}
 
 	// 从头部开始消费，还是从最新的消息开始 (默认从尾部开始进行消费，只处理新消息
-	_, err := thdredis.XGroupCreate(ctx, topic, c.channel, p.ReadMode).Result()
-	if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {
-		return nil, err
+	for tries := 0; ; tries++ {
+		_, err := thdredis.XGroupCreate(ctx, topic, c.channel, p.ReadMode).Result()
+		if err != nil && err.Error() != "BUSYGROUP Consumer Group name already exists" {
+			return nil, err
+		}
+
+		// Once the consumer exists, another one that closes leaves the group alone, until then it may remove it
+		err = thdredis.XGroupCreateConsumer(ctx, topic, c.channel, c.consumer).Err()
+		if err == nil {
+			break
+		}
+		if !strings.HasPrefix(err.Error(), "NOGROUP") || tries == 10 {
+			return nil, err
+		}
 	}
 	c.loop()
 
@@ -202,18 +213,17 @@ func (c *Channel) Close() error {
 		return err
 	}
 
-	consumers, err := thdredis.XInfoConsumers(context.TODO(), c.topic, c.channel).Result()
+	// one step, so that a consumer that arrives meanwhile keeps the group
+	_, err = thdredis.ScriptRun(context.TODO(), destroyScript, []string{c.topic}, c.channel)
 	if err != nil {
-		log.WarnF("braid.pubsub topic %v channel %v redis channel info consumers err %v", c.topic, c.channel, err.Error())
-		return err
-	}
-
-	if len(consumers) == 0 {
-		_, err := thdredis.XGroupDestroy(context.TODO(), c.topic, c.channel).Result()
-		if err != nil {
-			log.WarnF("braid.pubsub topic %v channel %v redis channel destory err %v", c.topic, c.channel, err.Error())
-		}
+		log.WarnF("braid.pubsub topic %v channel %v redis channel destory err %v", c.topic, c.channel, err.Error())
 	}
 
 	return err
 }
+
+var destroyScript = redis.NewScript(`
+if #redis.call("xinfo", "consumers", KEYS[1], ARGV[1]) == 0 then
+	return redis.call("xgroup", "destroy", KEYS[1], ARGV[1])
+end
+return 0`)
-- 
2.43.0


From fc914f1b0c9b247f76b8132fa18786d94336297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:54 +0000
Subject: [PATCH 51/53] fix: the server runs the configured stream interceptors

---
 lib/grpc/server.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/grpc/server.go b/lib/grpc/server.go
index deb5378..ed97cdc 100644
--- a/lib/grpc/server.go
+++ b/lib/grpc/server.go
@@ -33,14 +33,17 @@ func BuildServerWithOption(opts ...ServerOption) *Server {
 		opt(&p)
 	}
 
-	var rpcserver *grpc.Server
+	var serverOpts []grpc.ServerOption
 
 	if len(p.UnaryInterceptors) != 0 {
-		rpcserver = grpc.NewServer(grpc.UnaryInterceptor(grpc_middleware.ChainUnaryServer(p.UnaryInterceptors...)))
-	} else {
-		rpcserver = grpc.NewServer()
+		serverOpts = append(serverOpts, grpc.UnaryInterceptor(grpc_middleware.ChainUnaryServer(p.UnaryInterceptors...)))
+	}
+	if len(p.StreamInterceptors) != 0 {
+		serverOpts = append(serverOpts, grpc.StreamInterceptor(grpc_middleware.ChainStreamServer(p.StreamInterceptors...)))
 	}
 
+	rpcserver := grpc.NewServer(serverOpts...)
+
 	if p.Handler == nil {
 		panic(fmt.Errorf("grpc server handler not set"))
 	}
-- 
2.43.0


From 38d870556bf93037dde4cf2d90a4600f9c9774d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:40 +0000
Subject: [PATCH 52/53] fix: a registration whose context ends leaves nothing
 behind

---
 core/addressbook/addressbook_impl.go | 19 ++++++++++++-------
 core/node/system_impl.go             |  3 ++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 7b7fd13..59e19f1 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -88,23 +88,28 @@ func (ab *AddressBook) Register(ctx context.Context, ty, id string, weight int)
 	tyWeightCmd := pipe.HIncrBy(ctx, nodeKey, fmt.Sprintf("actor:%s", ty), int64(weight))
 	totalWeightCmd := pipe.HIncrBy(ctx, nodeKey, "total_weight", int64(weight))
 
-	_, err := pipe.Exec(ctx)
+	cmds, err := pipe.Exec(ctx)
 	if err != nil {
-		// undo the part that took effect, a failed registration must not stay in the directory
+		// Undo the part that took effect, a failed registration must not stay in the directory.
+		// When no command carries the error, none was sent.
+		sent := false
+		for _, cmd := range cmds {
+			sent = sent || cmd.Err() != nil
+		}
 		undo := trdredis.Pipeline()
-		if idCmd.Err() == nil {
+		if sent && idCmd.Err() == nil {
 			undo.HDel(ctx, def.RedisAddressbookIDField, id)
 		}
-		if tyCmd.Err() == nil {
+		if sent && tyCmd.Err() == nil {
 			undo.SRem(ctx, tyKey, addrJSON)
 		}
-		if tyWeightCmd.Err() == nil {
+		if sent && tyWeightCmd.Err() == nil {
 			undo.HIncrBy(ctx, nodeKey, fmt.Sprintf("actor:%s", ty), int64(-weight))
 		}
-		if totalWeightCmd.Err() == nil {
+		if sent && totalWeightCmd.Err() == nil {
 			undo.HIncrBy(ctx, nodeKey, "total_weight", int64(-weight))
 		}
-		if _, undoErr := undo.Exec(ctx); undoErr != nil {
+		if _, undoErr := undo.Exec(context.WithoutCancel(ctx)); undoErr != nil {
 			log.WarnF("[braid.addressbook] undo register actor %v err %v", id, undoErr)
 		}
 
diff --git a/core/node/system_impl.go b/core/node/system_impl.go
index c4a3414..c0756ab 100644
--- a/core/node/system_impl.go
+++ b/core/node/system_impl.go
@@ -200,7 +200,8 @@ func (sys *NormalSystem) registerAddress(ctx context.Context, builder core.IActo
 		return nil
 	}
 
-	if uerr := sys.addressbook.Unregister(ctx, builder.GetID(), builder.GetWeight()); uerr != nil {
+	// also when the registration failed because its context has ended
+	if uerr := sys.addressbook.Unregister(context.WithoutCancel(ctx), builder.GetID(), builder.GetWeight()); uerr != nil {
 		log.WarnF("braid.system withdraw actor id %v err %v", builder.GetID(), uerr)
 	}
 	if err != nil {
-- 
2.43.0


From 473e8304fd889ea44f909b1a64e633144f059fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:28 +0000
Subject: [PATCH 53/53] fix: an unregistration that has begun is completed when
 its context ends

---
 core/addressbook/addressbook_impl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/addressbook/addressbook_impl.go b/core/addressbook/addressbook_impl.go
index 59e19f1..8f6084c 100644
--- a/core/addressbook/addressbook_impl.go
+++ b/core/addressbook/addressbook_impl.go
@@ -156,6 +156,9 @@ func (ab *AddressBook) Unregister(ctx context.Context, id string, weight int) er
 		return fmt.Errorf("address not found for id: %s", id)
 	}
 
+	// the rest has to go with it, also when nobody waits for it any more
+	ctx = context.WithoutCancel(ctx)
+
 	// execute multiple redis operations using pipeline
 	pipe := trdredis.Pipeline()
 	pipe.SRem(ctx, fmt.Sprintf(def.RedisAddressbookTyField+"%s", info.ActorTy), addrJSON)
@@ -205,6 +208,7 @@ func (ab *AddressBook) UnregisterType(ctx context.Context, info core.AddressInfo
 		return nil
 	}
 
+	ctx = context.WithoutCancel(ctx)
 	pipe = trdredis.Pipeline()
 	pipe.HIncrBy(ctx, makeNodeKey(info.Node), fmt.Sprintf("actor:%s", info.ActorTy), int64(-weight))
 	pipe.HIncrBy(ctx, makeNodeKey(info.Node), "total_weight", int64(-weight))
-- 
2.43.0

