From 1f0b5aa825c34aebff5a71af9ba94600e867f4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 01/64] fix: removing a self-link from an undirected network
 raised KeyError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4ce6b5e..cb30505 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -278,7 +278,7 @@ class MultilayerNetwork(object):
                             if node2 not in self._rnet or node1 not in self._rnet[node2]:
                                 self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
-                    else:
+                    elif node1!=node2:
                         del self._net[node2][node1]
                     del self._net[node1][node2]
         else:
-- 
2.43.0


From 06e3e96d6f3e343c7e950dd14b9ca680af960848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:15 +0000
Subject: [PATCH 02/64] fix: total degree of the target node was not updated
 when a directed edge was removed

---
 pymnet/net.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index cb30505..d3ad7d4 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -272,11 +272,9 @@ class MultilayerNetwork(object):
                     if self.directed:
                         if node1==node2 and node2 in self._net[node1]:
                             self._totalDegree[node1]=self._totalDegree.get(node1,0)-1
-                        else:
-                            if node1 not in self._rnet or node2 not in self._rnet[node1]:
-                                self._totalDegree[node1]=self._totalDegree[node1]-1
-                            if node2 not in self._rnet or node1 not in self._rnet[node2]:
-                                self._totalDegree[node2]=self._totalDegree[node2]-1
+                        elif node2 not in self._rnet[node1]: #no edge to the other direction
+                            self._totalDegree[node1]=self._totalDegree[node1]-1
+                            self._totalDegree[node2]=self._totalDegree[node2]-1
                         del self._rnet[node2][node1]
                     elif node1!=node2:
                         del self._net[node2][node1]
-- 
2.43.0


From c9f3d47964db78c321e55342bc78e094cd95a0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:35 +0000
Subject: [PATCH 03/64] fix: slices with a fixed neighbor index used the index
 of the node itself

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index d3ad7d4..05e6018 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -493,7 +493,7 @@ class MultilayerNetwork(object):
             layers=[]
             for i in range(d):
                 if item[2*i+1]!=COLON:
-                    layers.append(item[2*i])
+                    layers.append(item[2*i+1])
                 else:
                     colons+=1
                     layers.append(None)
-- 
2.43.0


From 207a5d5662d6228b9dc284e7ef4331b550414b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:13 +0000
Subject: [PATCH 04/64] fix: intra-layer networks of a multiplex network
 ignored its noEdge value

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 05e6018..e9970d1 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -844,7 +844,7 @@ class MultiplexIntraNetDict(MutableMapping):
         pass
 
     def _add_empty_network(self,layer):
-        net=MultilayerNetworkWithParent(aspects=0,directed=self._net.directed)
+        net=MultilayerNetworkWithParent(aspects=0,noEdge=self._net.noEdge,directed=self._net.directed)
         net._set_parent(self._net)
         if not self._net.fullyInterconnected:
             if self._net.aspects==1:
-- 
2.43.0


From 4459a179901056f5a89898b0993619cac6e8aeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 05/64] fix: reading inter-layer links or strengths failed when
 there are no couplings

---
 pymnet/net.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index e9970d1..35e17fa 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1042,6 +1042,8 @@ class MultiplexNetwork(MultilayerNetwork):
                         return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
                     return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                elif coupling[0]=="none":
+                    return self.noEdge
                 else:
                     raise Exception("Coupling not implemented: "+str(coupling))
             else:
@@ -1101,8 +1103,10 @@ class MultiplexNetwork(MultilayerNetwork):
             raise Exception("Coupling '"+str(coupling_type)+"' not implemented.")
 
     def _get_dim_strength(self,node,aspect,direction="tot"):
-        coupling_str=self.couplings[aspect-1][1]
         coupling_type=self.couplings[aspect-1][0]
+        if coupling_type=="none":
+            return 0
+        coupling_str=self.couplings[aspect-1][1]
         if isinstance(coupling_type,MultilayerNetwork):
             raise Exception() #please implement this
         return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
-- 
2.43.0


From cbcca0d2f672360294f8008b2bb9cf7cd2242d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:32 +0000
Subject: [PATCH 06/64] fix: coupling neighbors and degrees in networks that
 are not fully interconnected

---
 pymnet/net.py | 38 +++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 35e17fa..7ea8aba 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1019,6 +1019,11 @@ class MultiplexNetwork(MultilayerNetwork):
             return layer in self.A
 
 
+    def _has_node_layer(self,supernode):
+        """Return true if the layer exists and the node is in it.
+        """
+        return self._has_layer_with_tuple(supernode[1:]) and supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]
+
     def _get_link(self,link):
         """Overrides parents method.
         """
@@ -1073,23 +1078,13 @@ class MultiplexNetwork(MultilayerNetwork):
             if self.fullyInterconnected:
                 return len(self.slices[aspect])-1
             else:
-                if self.aspects>1:
-                    layer=supernode[1:]
-                else:
-                    layer=supernode[1]
-                if layer in self._nodeToLayers[supernode[0]]:
-                    if self.aspects==1:
-                        return len(self._nodeToLayers[supernode[0]])-1
-                    else:
-                        return len(filter(lambda x:x[aspect]==supernode[aspect],self._nodeToLayers[supernode[0]])) -1
-                else:
-                    return 0
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
             if self.fullyInterconnected:
                 return int(up in self.slices[aspect])+int(down in self.slices[aspect])
             else:
-                return int(supernode[:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])+int(supernode[:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]])
+                return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
             if direction=="tot":
                 return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
@@ -1119,14 +1114,11 @@ class MultiplexNetwork(MultilayerNetwork):
                 for n in self.slices[aspect]:
                     if n!=supernode[aspect]:                    
                         yield supernode[:aspect]+(n,)+supernode[aspect+1:]
-            elif supernode[0] in self._get_A_with_tuple(supernode[1:]).slices[0]:
-                for layers in self._nodeToLayers[supernode[0]]:
-                    if self.aspects>1:
-                        if layers!=supernode[1:]:
-                            yield (supernode[0],)+layers
-                    else:
-                        if layers!=supernode[1]:
-                            yield (supernode[0],layers)
+            elif self._has_node_layer(supernode):
+                for n in self.slices[aspect]:
+                    neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                    if n!=supernode[aspect] and self._has_node_layer(neigh):
+                        yield neigh
         elif coupling_type=="ordinal":
             up,down=supernode[aspect]+1,supernode[aspect]-1
             if self.fullyInterconnected:
@@ -1134,10 +1126,10 @@ class MultiplexNetwork(MultilayerNetwork):
                     yield supernode[:aspect]+(up,)+supernode[aspect+1:]
                 if down in self.slices[aspect]:
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
-            else:
-                if supernode[1:aspect]+(up,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
+            elif self._has_node_layer(supernode):
+                if self._has_node_layer(supernode[:aspect]+(up,)+supernode[aspect+1:]):
                     yield supernode[:aspect]+(up,)+supernode[aspect+1:]
-                if supernode[1:aspect]+(down,)+supernode[aspect+1:] in self._nodeToLayers[supernode[0]]:
+                if self._has_node_layer(supernode[:aspect]+(down,)+supernode[aspect+1:]):
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
         elif coupling_type=="none":
             pass
-- 
2.43.0


From cd0116db9dbceb8da57d2fcfce46acbae145f36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 07/64] fix: iterating over neighbors and calculating strengths
 with coupling networks

---
 pymnet/net.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 7ea8aba..62802b5 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1046,7 +1046,8 @@ class MultiplexNetwork(MultilayerNetwork):
                     else:
                         return self.noEdge
                 elif isinstance(coupling[0],MultilayerNetwork):
-                    return self.couplings[d[0]-1][0][link[2*d[0]],link[2*d[0]+1]]
+                    weight=coupling[0][link[2*d[0]],link[2*d[0]+1]]
+                    return weight if weight!=coupling[0].noEdge else self.noEdge
                 elif coupling[0]=="none":
                     return self.noEdge
                 else:
@@ -1086,12 +1087,7 @@ class MultiplexNetwork(MultilayerNetwork):
             else:
                 return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif isinstance(coupling_type,MultilayerNetwork):
-            if direction=="tot":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_total()
-            elif direction=="in":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_in()
-            elif direction=="out":
-                return self.couplings[aspect-1][0][supernode[aspect]].deg_out()
+            return len(list(self._iter_dim(supernode,aspect,direction=direction)))
         elif coupling_type=="none":
             return 0
         else:
@@ -1101,10 +1097,11 @@ class MultiplexNetwork(MultilayerNetwork):
         coupling_type=self.couplings[aspect-1][0]
         if coupling_type=="none":
             return 0
-        coupling_str=self.couplings[aspect-1][1]
         if isinstance(coupling_type,MultilayerNetwork):
-            raise Exception() #please implement this
-        return self._get_dim_degree(node,aspect,direction=direction)*coupling_str
+            if direction=="in":
+                return sum(map(lambda n:self._get_link(self._nodes_to_link(n,node)),self._iter_dim(node,aspect,direction=direction)))
+            return sum(map(lambda n:self._get_link(self._nodes_to_link(node,n)),self._iter_dim(node,aspect,direction=direction)))
+        return self._get_dim_degree(node,aspect,direction=direction)*self.couplings[aspect-1][1]
 
 
     def _iter_dim(self,supernode,aspect,direction="tot"):
@@ -1131,10 +1128,21 @@ class MultiplexNetwork(MultilayerNetwork):
                     yield supernode[:aspect]+(up,)+supernode[aspect+1:]
                 if self._has_node_layer(supernode[:aspect]+(down,)+supernode[aspect+1:]):
                     yield supernode[:aspect]+(down,)+supernode[aspect+1:]
+        elif isinstance(coupling_type,MultilayerNetwork):
+            if direction=="tot":
+                layers=coupling_type[supernode[aspect]].iter_total()
+            elif direction=="in":
+                layers=coupling_type[supernode[aspect]].iter_in()
+            else:
+                layers=coupling_type[supernode[aspect]].iter_out()
+            for n in layers:
+                neigh=supernode[:aspect]+(n,)+supernode[aspect+1:]
+                if n!=supernode[aspect] and self._has_node_layer(supernode) and self._has_node_layer(neigh):
+                    yield neigh
         elif coupling_type=="none":
             pass
         else:
-            raise NotImplemented()
+            raise NotImplementedError()
         
     def _select_dimensions(self,node,dims):
         if dims==None:
-- 
2.43.0


From 0fd1aacfe82adcf8229ad9a6c11e5905a6295dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:30 +0000
Subject: [PATCH 08/64] fix: total strength of directed multiplex networks
 counted coupling edges only once

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 62802b5..f6e46e5 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1200,7 +1200,7 @@ class MultiplexNetwork(MultilayerNetwork):
             if d==0:
                 s+=self._get_A_with_tuple(node[1:])[node[0]].str_total()
             else:
-                s+=self._get_dim_strength(node,d,direction="tot")
+                s+=self._get_dim_strength(node,d,direction="in")+self._get_dim_strength(node,d,direction="out")
         return s
 
 
-- 
2.43.0


From 56aab461ecff7eab92b970c2a4e5d7dc66b3ca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:33 +0000
Subject: [PATCH 09/64] fix: slices of multiplex networks with a fixed index
 different from the node had no neighbors

---
 pymnet/net.py | 50 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index f6e46e5..9530817 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1149,18 +1149,24 @@ class MultiplexNetwork(MultilayerNetwork):
             for d in range(self.aspects+1):
                 yield d
         else:
-            l=[]
-            for d,val in enumerate(dims):
-                if val!=None and node[d]!=val:
-                    return
-                if val==None:
-                    l.append(d)
-            for d in l:
-                yield d
+            fixed=self._get_fixed_dimensions(node,dims)
+            if len(fixed)==0:
+                for d,val in enumerate(dims):
+                    if val==None:
+                        yield d
+            elif len(fixed)==1: #neighbors can differ from the node only in this dimension
+                yield fixed[0]
+
+    def _get_fixed_dimensions(self,node,dims):
+        """Returns the dimensions in which neighbors matching dims must differ from the node.
+        """
+        return [d for d,val in enumerate(dims or ()) if val!=None and node[d]!=val]
 
     def _get_degree_total_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_fixed_dimensions(node,dims):
+            return len(list(self._iter_neighbors_total(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1172,6 +1178,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_degree_in_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_fixed_dimensions(node,dims):
+            return len(list(self._iter_neighbors_in(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1183,6 +1191,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_degree_out(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_fixed_dimensions(node,dims):
+            return len(list(self._iter_neighbors_out(node,dims)))
         k=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1195,6 +1205,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_total_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_fixed_dimensions(node,dims):
+            return MultilayerNetwork._get_strength_total_dir(self,node,dims)
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1207,6 +1219,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_in_dir(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_fixed_dimensions(node,dims):
+            return MultilayerNetwork._get_strength_in_dir(self,node,dims)
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1219,6 +1233,8 @@ class MultiplexNetwork(MultilayerNetwork):
     def _get_strength_out(self,node, dims):
         """Overrides parents method.
         """
+        if self._get_fixed_dimensions(node,dims):
+            return MultilayerNetwork._get_strength_out(self,node,dims)
         s=0
         for d in self._select_dimensions(node,dims):
             if d==0:
@@ -1235,10 +1251,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_total((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if dims==None or dims[d]==None or dims[d]==n[0]:
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="tot"):
-                    yield n
+                    if dims==None or dims[d]==None or dims[d]==n[d]:
+                        yield n
 
     def _iter_neighbors_in_dir(self,node,dims):
         """Overrides parents method.
@@ -1246,10 +1264,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_in((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if dims==None or dims[d]==None or dims[d]==n[0]:
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="in"):
-                    yield n
+                    if dims==None or dims[d]==None or dims[d]==n[d]:
+                        yield n
 
     def _iter_neighbors_out(self,node,dims):
         """Overrides parents method.
@@ -1257,10 +1277,12 @@ class MultiplexNetwork(MultilayerNetwork):
         for d in self._select_dimensions(node,dims):
             if d==0:                
                 for n in self._get_A_with_tuple(node[1:])._iter_neighbors_out((node[0],)):
-                    yield (n[0],)+node[1:]
+                    if dims==None or dims[d]==None or dims[d]==n[0]:
+                        yield (n[0],)+node[1:]
             else:
                 for n in self._iter_dim(node,d,direction="out"):
-                    yield n
+                    if dims==None or dims[d]==None or dims[d]==n[d]:
+                        yield n
 
     def __eq__(self,other):
         if type(self) is type(other):
-- 
2.43.0


From 098af555886e236a1d7b9f673193608ab70ff06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:09 +0000
Subject: [PATCH 10/64] fix: multiplex networks with coupling networks could
 not be copied (subnet, relabel, threshold)

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 9530817..4a61051 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -938,7 +938,7 @@ class MultiplexNetwork(MultilayerNetwork):
             for coupling in couplings:
                 if isinstance(coupling,tuple):
                     assert len(coupling)!=0
-                    assert coupling[0] in coupling_types
+                    assert coupling[0] in coupling_types or isinstance(coupling[0],MultilayerNetwork)
                     if coupling[0] in ["categorical","ordinal"] and len(coupling)==1:
                         coupling=coupling+(1.0,)
                     self.couplings.append(coupling)
-- 
2.43.0


From b9999be75f1a49642b34d015c10d15a878e27512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 11/64] fix: aggregate lost the remaining layers that do not
 have edges

---
 pymnet/transforms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 08dd713..cfbc556 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -74,6 +74,11 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
     for node in net:
         newNet.add_node(node)
     
+    #Add layers of the aspects that are left
+    for newAspect,d in enumerate(filter(lambda x:x not in aspects,range(1,net.aspects+1))):
+        for layer in net.get_layers(d):
+            newNet.add_layer(layer,newAspect+1)
+
     #Add edges
     edgeIndices=list(filter(lambda x:math.floor(x/2) not in aspects,range(2*(net.aspects+1))))
     for edge in net.edges:
-- 
2.43.0


From 9d3d648ba0ae6f2d6af8dbeca7dd3283a83a6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 12/64] fix: aggregate added the noEdge value to the edge
 weights

---
 pymnet/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index cfbc556..b9d274a 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -86,7 +86,10 @@ def aggregate(net,aspects,newNet=None,selfEdges=False):
         for index in edgeIndices:
             newEdge.append(edge[index])
         if selfEdges or not newEdge[0::2]==newEdge[1::2]:
-            newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
+            if newNet[tuple(newEdge)]!=newNet.noEdge:
+                newNet[tuple(newEdge)]=newNet[tuple(newEdge)]+edge[-1]
+            else:
+                newNet[tuple(newEdge)]=edge[-1]
 
     #Add node-layer tuples (if not node-aligned)
     if not net.fullyInterconnected and newNet.aspects>0:
-- 
2.43.0


From e459ac02f9181035a3f2181171f6389963f4e13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 13/64] fix: relabel modified the list of layer names given as
 a parameter

---
 pymnet/transforms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index b9d274a..ea8543b 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -296,6 +296,7 @@ def relabel(net,nodeNames=None,layerNames=None):
         if isinstance(layerNames,dict):
             layerNames=[layerNames]
 
+    layerNames=list(layerNames) #do not modify the parameter
     for aspect in range(net.aspects):
         if len(layerNames)<aspect+1:
             layerNames.append({})
-- 
2.43.0


From 460b5c10b0234a6d57a1e96613b4e8a2c720536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 14/64] fix: threshold raised NameError for networks that are
 not fully interconnected

---
 pymnet/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index ea8543b..7114fe4 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -461,7 +461,7 @@ def threshold(net,threshold,method=">=",ignoreCouplingEdges=False):
             newNet.add_layer(layer,aspect=aspect+1) 
     if not net.fullyInterconnected:
         for nodelayer in net.iter_node_layers():
-            layer=lnodelayer[1:]
+            layer=nodelayer[1:]
             if net.aspects==1:
                 layer=layer[0]
             newNet.add_node(nodelayer[0],layer=layer)
-- 
2.43.0


From c9eae1836fff14d52cfc325dc2d5e69f4eb485a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:06 +0000
Subject: [PATCH 15/64] fix: subnet_iter went through coupling edges and edges
 outside of the subnetwork

---
 pymnet/transforms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 7114fe4..6233659 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -561,11 +561,12 @@ def subnet_iter(net,remove_elayers=[],remove_edges=True):
             if isinstance(net,netmodule.MultiplexNetwork):
                 #For multiplex networks we do not want to go through coupling edges
                 couplings=subnet_with_edges.couplings
+                subnet_with_edges.couplings=[("none",)]*net.aspects
                 edges=list(subnet_with_edges.edges)
                 subnet_with_edges.couplings=couplings
             else:
                 #For multilayer networks we go through all edges
-                edges=net.edges
+                edges=list(subnet_with_edges.edges)
             for newnet_edges in all_combinations(edges):
                 newnet=subnet(subnet_with_edges,*nl,nolinks=True)
                 for edge in newnet_edges:
-- 
2.43.0


From f00b34a5ec3d2189a50e9df1c6b13811c9d4666a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 16/64] fix: comparing networks with and without full
 interconnection raised AttributeError

---
 pymnet/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 4a61051..db508ec 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -176,7 +176,7 @@ class MultilayerNetwork(object):
         if not isinstance(other,MultilayerNetwork):
             return False
         
-        if not self.fullyInterconnected:
+        if not self.fullyInterconnected and not other.fullyInterconnected:
             if self._nodeToLayers!=other._nodeToLayers:
                 return False
         if type(self) is type(other) and self.directed == other.directed and self.directed==other.directed and self.aspects==other.aspects and self.fullyInterconnected == other.fullyInterconnected and self.noEdge == other.noEdge and self.slices==other.slices and len(self.edges) ==len(other.edges):            
-- 
2.43.0


From 534f3926f913d3f55e60ff6e99f0e9b0a067b579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:47 +0000
Subject: [PATCH 17/64] fix: supra-adjacency matrix of a monoplex network lost
 the self-links

---
 pymnet/net.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index db508ec..e62b71a 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -646,8 +646,7 @@ class MultilayerNetwork(object):
             matrix=numpy.zeros((len(nodes),len(nodes)),dtype=float)
             for i_index,i in enumerate(nodes):
                 for j_index,j in enumerate(nodes):
-                    if i_index!=j_index:
-                        matrix[i_index,j_index]=self[i][j]
+                    matrix[i_index,j_index]=self[i][j]
 
         return numpy.matrix(matrix),nodes
 
-- 
2.43.0


From cd61e1c1deb56bb89645156c72dbfef13dbd03db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 18/64] fix: density failed for networks not fully
 interconnected and for single node-layers

---
 pymnet/diagnostics.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index da79c68..3c0ce71 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -49,11 +49,17 @@ def density(net):
         nl=len(net.get_layers(0))
         for a in range(net.aspects):
             nl=nl*len(net.get_layers(a+1))
-        if net.directed:
-            pedges=nl*(nl-1)
-        else:
-            pedges=(nl*(nl-1))/2
-            
+    else:
+        nl=len(list(net.iter_node_layers()))
+
+    if net.directed:
+        pedges=nl*(nl-1)
+    else:
+        pedges=(nl*(nl-1))/2
+
+    if pedges==0: #less than two node-layers
+        return 0
+
     return len(net.edges)/float(pedges)
 
 
-- 
2.43.0


From 4b329203c5bb9c5516171952ccd467916bd563df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 19/64] fix: overlap_degs raised NameError and depended on the
 link weights

---
 pymnet/diagnostics.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index 3c0ce71..d4a9c73 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -1,4 +1,5 @@
 from .net import MultilayerNetwork,MultiplexNetwork
+from .transforms import aggregate,subnet,threshold
 import heapq,itertools
 
 def degs(net,degstype="distribution"):
@@ -116,7 +117,11 @@ def overlap_degs(net):
     nodes = net.slices[0]
     layers = net.slices[1]
     
+    #The intra-layer links without their weights
     net0 = subnet(net, nodes, layers)
+    for e in list(net0.edges):
+        if e[2] == e[3]:
+            net0[e[0], e[1], e[2]] = 1
     
     for n_l in range(len(layers), 0, -1):
         for layer_comb in itertools.combinations(layers, n_l):
@@ -128,7 +133,7 @@ def overlap_degs(net):
             if n_l > 1:
                 for e in thr_net.edges:
                     for layer in layer_comb:
-                        net0[e[0], e[1], layer] = 0
+                        net0[e[0], e[1], layer] = net0.noEdge
                         
     return ol_degs
     
-- 
2.43.0


From 1d32428896239ef34ffceb081597e89c58685cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 20/64] fix: dijkstra with zero weights, self-links at sources,
 iterators as sources and names that cannot be compared

---
 pymnet/diagnostics.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pymnet/diagnostics.py b/pymnet/diagnostics.py
index d4a9c73..72ab842 100644
--- a/pymnet/diagnostics.py
+++ b/pymnet/diagnostics.py
@@ -150,22 +150,31 @@ def dijkstra(net,sources):
                              fullyInterconnected=False,
                              directed=True,
                              noEdge=-1)
+    sources=list(sources)
     d=dict([(s,0) for s in sources])
 
+    counter=itertools.count() #breaks ties, because node names might not be comparable
     queue=[]
     for s in sources:
-        heapq.heappush(queue,(0,s,s)) #distance, source, dest
-    
+        heapq.heappush(queue,(0,next(counter),s,s)) #distance, counter, source, dest
+
+    expanded=set()
     while len(queue)>0:
-        dist,source,dest=heapq.heappop(queue)
+        dist,_,source,dest=heapq.heappop(queue)
         if d[dest]>=dist: #could be ==
             assert d[dest]==dist, " ".join(map(str,[dist,source,dest,d[dest]]))
-            forest[source][dest]=net[source][dest]
+            if source==dest: #one of the sources
+                forest[source][dest]=0
+            else:
+                forest[source][dest]=net[source][dest]
+            if dest in expanded: #the edges from dest are already in the queue
+                continue
+            expanded.add(dest)
             for neigh in net[dest].iter_out():
                 ndist=dist+net[dest][neigh]
-                if neigh not in d or d[neigh]>=ndist:
+                if neigh!=dest and (neigh not in d or d[neigh]>=ndist):
                     d[neigh]=ndist      
-                    heapq.heappush(queue,(ndist,dest,neigh))
+                    heapq.heappush(queue,(ndist,next(counter),dest,neigh))
 
 
     return d,forest
-- 
2.43.0


From 953f6c1d4259773d7c8c6170294d69b17dc91d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 21/64] fix: read_ucinet lost isolated nodes of single-level
 files

---
 pymnet/netio.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 6d8343f..22a1e6b 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -286,11 +286,13 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
         raise Exception("Format '%s' is not supported" % format)
 
 
-    if fullyInterconnected and nm!=1:
-        for layer in llabels:
-            for node in clabels:
-                net.A[layer].add_node(node)
-            for node in rlabels:
-                net.A[layer].add_node(node)
+    if fullyInterconnected:
+        for node in clabels:
+            net.add_node(node)
+        for node in rlabels:
+            net.add_node(node)
+        if nm!=1:
+            for layer in llabels:
+                net.add_layer(layer)
 
     return net
-- 
2.43.0


From f9c233309da41bc56d8a1a06519f4269a786c0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 22/64] fix: read_ucinet read unsupported formats as full
 matrices

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 22a1e6b..2f38e2b 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -248,7 +248,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
     else:
         net=MultiplexNetwork(couplings=[couplings],fullyInterconnected=fullyInterconnected)
 
-    if format=="fullmatrix" or "fullmatrix diagonal present":
+    if format in ("fullmatrix","fullmatrix diagonal present"):
         try:
             if labels_embedded: #first line is labels
                 #clabels=map(lambda x:x.lower(),ii.next().split())
-- 
2.43.0


From 76c78cde883868bcc16283db687dd80a6565098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 23/64] fix: read_ucinet did not convert labels to lower case

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 2f38e2b..59ef0d8 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -130,7 +130,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                 fields=line.split(",")
                 for label in fields:
                     nlabels+=1
-                    yield label.strip()#.lower()
+                    yield label.strip().lower()
         except StopIteration:
             raise Exception("File ended while reading labels.")
 
-- 
2.43.0


From 8809f5f6071f32ce6d89835af5ed80d3423921c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:36 +0000
Subject: [PATCH 24/64] fix: read_ucinet failed with embedded labels in rows
 that continue on the next line

---
 pymnet/netio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/netio.py b/pymnet/netio.py
index 59ef0d8..787ec10 100644
--- a/pymnet/netio.py
+++ b/pymnet/netio.py
@@ -260,7 +260,7 @@ def read_ucinet(netinput,couplings=('categorical',1.0),fullyInterconnected=True)
                 #line=ii.next().strip()
                 line=ii.send(None).strip()
                 fields=line.split()
-                while len(fields)<n:
+                while len(fields)<n+int(labels_embedded):
                     #line=ii.next().strip()
                     line=ii.send(None).strip()
                     fields.extend(line.split())
-- 
2.43.0


From a1437eeba474631fff8583ef8bc4d8c3cb1ebd56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 25/64] fix: networkx was left modified if a wrapped function
 raised an exception

---
 pymnet/nxwrap.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 6aa6e8c..085f90b 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -192,11 +192,12 @@ def networkxdecorator(f):
         networkx_Graph_original=networkx.Graph
         networkx.Graph=MonoplexGraphNetworkxView
 
-        #Run the actual function
-        rval=f(*args, **kwargs)
-
-        #Revert the modifications to NetworkX
-        networkx.Graph=networkx_Graph_original
+        try:
+            #Run the actual function
+            rval=f(*args, **kwargs)
+        finally:
+            #Revert the modifications to NetworkX
+            networkx.Graph=networkx_Graph_original
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
-- 
2.43.0


From 6128580301a277a143c68b98af572202bb12f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 26/64] fix: networkx functions returning subgraph views gave
 empty networks

---
 pymnet/nxwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 085f90b..98a04c0 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -201,6 +201,8 @@ def networkxdecorator(f):
 
         #Unpack the pymnet objects from the results
         if isinstance(rval,MonoplexGraphNetworkxView):
+            if hasattr(rval,"_adj") and not isinstance(rval._adj,MonoplexGraphWrapper_adj): #a filtered view such as a subgraph
+                rval=rval.copy()
             rval=rval.net
 
         return rval
-- 
2.43.0


From 8a2691d79034be5e2b3f6ea379f7352a932c511d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 27/64] fix: isomorphisms of monoplex networks with edges
 raised KeyError

---
 pymnet/isomorphisms/isomcore.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 90ab0ba..318e305 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -89,6 +89,8 @@ class AuxiliaryGraphBuilder(object):
         #edges between node-layers:
         for nl1 in self.net.iter_node_layers():
             for nl2 in self.net[nl1]:
+                if self.net.aspects==0: #neighbors in monoplex networks are not tuples
+                    nl2=(nl2,)
                 nl1id=self._get_node_id(nl1)
                 nl2id=self._get_node_id(nl2)
                 self.add_link(nl1id,nl2id)
-- 
2.43.0


From 3bd7156a8825fbe16515fdb1a73f4d519aa0234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:05 +0000
Subject: [PATCH 28/64] fix: comparing networks with different labels in
 aspects that are not permuted raised AssertionError

---
 pymnet/isomorphisms/isomcore.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pymnet/isomorphisms/isomcore.py b/pymnet/isomorphisms/isomcore.py
index 318e305..741f71d 100644
--- a/pymnet/isomorphisms/isomcore.py
+++ b/pymnet/isomorphisms/isomcore.py
@@ -112,8 +112,10 @@ class AuxiliaryGraphBuilder(object):
                 self.add_link(nlid,auxid)
 
     def compare_labels(self,other):
+        if self.colormap!=other.colormap:
+            return False
         assert self.auxcolormap==other.auxcolormap #this should be true if comparable
-        return self.colormap==other.colormap
+        return True
 
 
     def compare(self,other):
-- 
2.43.0


From db1385f87e79c3abdfba979e3ff9d23574b96ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:50 +0000
Subject: [PATCH 29/64] fix: random_nodelists raised NameError in Python 3

---
 pymnet/sampling/creators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/sampling/creators.py b/pymnet/sampling/creators.py
index 322d7c7..012ffef 100644
--- a/pymnet/sampling/creators.py
+++ b/pymnet/sampling/creators.py
@@ -62,4 +62,4 @@ def random_nodelists(poolsize,nodes_per_layer,layers,seed=None):
     else:
         random.seed(seed)
     for _ in range(layers):
-        yield random.sample(xrange(poolsize),nodes_per_layer)
\ No newline at end of file
+        yield random.sample(range(poolsize),nodes_per_layer)
\ No newline at end of file
-- 
2.43.0


From dad88665d1609cd51c1146e69a3ec12d1fb6eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:25 +0000
Subject: [PATCH 30/64] fix: cc_layers_avg and gcc_from_lcc raised TypeError in
 Python 3

---
 pymnet/cc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 637bb55..d70c268 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -281,7 +281,7 @@ def cc_sequence(net,node):
 def cc_layers_avg(net,node):
     #how to handle undefined cc?
     nom,den=cc_sequence(net,node)
-    tot=map(lambda x,y:x/float(y),nom,den)
+    tot=list(map(lambda x,y:x/float(y),nom,den))
     return sum(tot)/float(len(tot))
 
 def cc_layers_wavg(net,node):
@@ -1117,7 +1117,7 @@ def sncc_aw_seplayers(net,supernode,w1=1./3.,w2=1./3.,w3=1./3.,undefined=None):
 
 def gcc_from_lcc(net,lcc):
     lcc_vector=map(lambda node:lcc(net,node,undefReturn=None),net)
-    lcc_fvector=filter(lambda x:x!=None,lcc_vector)
+    lcc_fvector=list(filter(lambda x:x!=None,lcc_vector))
     if len(lcc_fvector)>0:
         return sum(lcc_fvector)/len(lcc_fvector)
     else:
-- 
2.43.0


From cf8baae47a779b96bf4e81dd51b867598e5b0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:45 +0000
Subject: [PATCH 31/64] fix: weighted clustering coefficients raised ValueError
 for networks without edges

---
 pymnet/cc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index d70c268..1dd2543 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -66,9 +66,9 @@ def cc_zhang(net,node,undefReturn=0.0):
     gcc_zhang : The global version of the clustering coefficient
 
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
+        maxw=max(map(lambda x:x[2],net.edges))
         nom,den=0,0
         for i,j in itertools.combinations(net[node],2):
             nij=net[node][i]*net[node][j]
@@ -93,7 +93,6 @@ def gcc_zhang(net):
 
     """
 
-    maxw=max(map(lambda x:x[2],net.edges))
     nom,den=0,0
     for node in net:
         degree=net[node].deg()
@@ -105,6 +104,7 @@ def gcc_zhang(net):
                 if ij!=net.noEdge:
                     nom+=nij*ij
     if den!=0:
+        maxw=max(map(lambda x:x[2],net.edges))
         return nom/float(den)/float(maxw)
     else:
         return None
@@ -121,9 +121,9 @@ def cc_onnela(net,node,undefReturn=0.0):
     ----------
     J.-P. Onnela, J. Saramaki, J. Kertesz, and K. Kaski, Phys. Rev. E 71, 065103 (2005)
     """
-    maxw=max(map(lambda x:x[2],net.edges))
     degree=net[node].deg()
     if degree>=2:
+        maxw=max(map(lambda x:x[2],net.edges))
         nom=0
         for i,j in itertools.combinations(net[node],2):
             ij=net[i][j]
-- 
2.43.0


From 64c7726432cb4072dca455d068deb9d229b27d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:48 +0000
Subject: [PATCH 32/64] fix: lcc_criado counted the edges of the layer instead
 of the edges of the aggregated network

---
 pymnet/cc.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pymnet/cc.py b/pymnet/cc.py
index 1dd2543..8220c55 100644
--- a/pymnet/cc.py
+++ b/pymnet/cc.py
@@ -1684,18 +1684,22 @@ def lcc_criado(net,node,undefReturn=0.0,anet=None):
     """
     s,d=0,0
     
-    if anet==None:
-        nu=set()
-        for alpha in net.get_layers():
-            for neigh in net.A[alpha][node]:
-                nu.add(neigh)
-    else:
-        nu=set(anet[node])
+    def aggregated_neighbors(n):
+        if anet==None:
+            neighbors=set()
+            for alpha in net.get_layers():
+                for neigh in net.A[alpha][n]:
+                    neighbors.add(neigh)
+            return neighbors
+        else:
+            return set(anet[n])
+
+    nu=aggregated_neighbors(node)
 
     for alpha in net.get_layers():
         nalphau=nu.intersection(set(net.A[alpha]))
         for neighbor1 in nalphau:
-            for neighbor2 in net.A[alpha][neighbor1]:
+            for neighbor2 in aggregated_neighbors(neighbor1):
                 if neighbor2 in nalphau:
                     s+=1
         d+=len(nalphau)*(len(nalphau)-1)
-- 
2.43.0


From dae531c5cd17ac162ab1fc0f7cd2a48e36ce555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 33/64] fix: Erdos-Renyi networks with zero connection
 probability raised ZeroDivisionError

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index cc3a4a5..fc729c6 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -184,7 +184,7 @@ def single_layer_er(net,nodes,p=None,edges=None):
                 for node2 in nodes:
                     if node1!=node2:
                         net[node1,node2]=1
-        else:
+        elif p>0:
             v,w=1,-1
             while (v < n):
                 r=random.random()
-- 
2.43.0


From 359c23e03e761279f1d8ee0543c335b857f7cc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 34/64] fix: configuration model of a given multiplex network
 ignored the couplings parameter

---
 pymnet/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/models.py b/pymnet/models.py
index fc729c6..7b5c9fe 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -242,7 +242,7 @@ def conf(degs,degstype="distribution",couplings=("categorical",1.0)):
             d[layer]=dd
             for node in degs.A[layer]:
                 dd[node]=degs.A[layer][node].deg()
-        return conf(d,degstype="nodes")
+        return conf(d,degstype="nodes",couplings=couplings)
     elif isinstance(degs,MultilayerNetwork):
         assert degs.aspects==0
         d={}
-- 
2.43.0


From 18d44bf16dbbfa9eba03035b98fc3047b43bfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 35/64] fix: nodes and layers without edges were missing from
 generated networks

---
 pymnet/models.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index 7b5c9fe..bb903eb 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -416,20 +416,28 @@ def full(nodes,layers,couplings=('categorical',1.0)):
     """
     if layers==None:
         n=MultilayerNetwork(aspects=0)
+        for node in range(nodes):
+            n.add_node(node)
         for node1 in range(nodes):
             for node2 in range(nodes):
                 if node1!=node2:
                     n[node1,node2]=1
     elif not hasattr(layers,'__iter__'): #is not sequence
         n=MultiplexNetwork(couplings=[couplings])
+        for node in range(nodes):
+            n.add_node(node)
         for layer in range(layers):
+            n.add_layer(layer)
             for node1 in range(nodes):
                 for node2 in range(nodes):
                     if node1!=node2:
                         n[node1,node2,layer,layer]=1
     else: #it's a sequence
         n=MultiplexNetwork(couplings=[couplings])
+        for node in range(nodes):
+            n.add_node(node)
         for layer in layers:
+            n.add_layer(layer)
             for node1 in range(nodes):
                 for node2 in range(nodes):
                     if node1!=node2:
@@ -459,6 +467,10 @@ def full_multilayer(nodes,layers):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
@@ -494,6 +506,10 @@ def er_multilayer(nodes,layers,p,randomWeights=False):
         layers=range(layers)
 
     n=MultilayerNetwork(aspects=1)
+    for node in range(nodes):
+        n.add_node(node)
+    for layer in layers:
+        n.add_layer(layer)
     for layer1 in layers:
         for layer2 in layers:
             for node1 in range(nodes):
@@ -811,6 +827,8 @@ def ba_total_degree(n, ms, couplings=None):
     """
     
     net = MultiplexNetwork(couplings=couplings)
+    for layer in range(len(ms)):
+        net.add_layer(layer)
     links = []
     
     for i in range(n):
-- 
2.43.0


From e21a879a68281ececf37c8bd41979cd9d3882618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:31 +0000
Subject: [PATCH 36/64] fix: nodes without edges were missing from networks
 with given overlaps

---
 pymnet/models.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pymnet/models.py b/pymnet/models.py
index bb903eb..c0cce75 100644
--- a/pymnet/models.py
+++ b/pymnet/models.py
@@ -570,6 +570,10 @@ def conf_overlaps(ol_degs, couplings=None):
     
     for layer_comb in ol_degs:
         degs = ol_degs[layer_comb]
+        for layer in layer_comb:
+            net.add_layer(layer)
+        for node in degs:
+            net.add_node(node)
         
         # mostly modified from single_layer_conf
         stubs=[]
@@ -759,8 +763,13 @@ def er_overlaps_match_aggregated(n, edges, ps, couplings=None):
     net = MultiplexNetwork(couplings=couplings)
     used_edges = set()
     
+    for node in range(n):
+        net.add_node(node)
+
     e_left = {}
     for layer_comb in ps:
+        for layer in layer_comb:
+            net.add_layer(layer)
         if len(layer_comb) == 1:
             e_left[layer_comb[0]] = e_left.get(layer_comb[0], edges)
             continue
-- 
2.43.0


From dc6e26fe0b5e9f9408989276cadb9a66f5532766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:15 +0000
Subject: [PATCH 37/64] fix: partitions_with_remainder raised NameError in
 Python 3

---
 pymnet/graphlets/graphlets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/graphlets/graphlets.py b/pymnet/graphlets/graphlets.py
index 2484f02..a69694a 100644
--- a/pymnet/graphlets/graphlets.py
+++ b/pymnet/graphlets/graphlets.py
@@ -688,7 +688,7 @@ def partitions_with_remainder(s, r): #Gareth Rees https://stackoverflow.com/ques
     [((0, 1, 2),), ((1, 2), (0,)), ((0, 2), (1,)), ((0, 1), (2,))]
     """
     s = set(s)
-    for n in xrange(len(s), -1, -r): # n is size of remainder.
+    for n in range(len(s), -1, -r): # n is size of remainder.
         if n == 0:
             for p in partitions(s, r):
                 yield p
-- 
2.43.0


From 090a1ef112193ad1459a3597d930e5c219bfb9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:10 +0000
Subject: [PATCH 38/64] fix: orbit_counts_all removed the edges of the network
 given to it

---
 pymnet/graphlets/graphlet_measures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pymnet/graphlets/graphlet_measures.py b/pymnet/graphlets/graphlet_measures.py
index 1e81268..dba069a 100644
--- a/pymnet/graphlets/graphlet_measures.py
+++ b/pymnet/graphlets/graphlet_measures.py
@@ -38,6 +38,7 @@ def orbit_counts_all(net, n, nets, invs, auts, orbit_list, allowed_aspects='all'
     
     nodes = net.slices[0]
     layers = net.slices[1]
+    net = pymnet.subnet(net, nodes, layers) # edges are removed from this copy
     
     orbits = dd()
     
-- 
2.43.0


From 7a113fa6f9082140976c6140fe694effba72f3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 39/64] fix: redundant_orbits picked orbits that cannot be
 solved from the independent equations

---
 pymnet/graphlets/independent_equations.py | 28 +++++++++++++++--------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/pymnet/graphlets/independent_equations.py b/pymnet/graphlets/independent_equations.py
index 6bb207b..67ad4a5 100644
--- a/pymnet/graphlets/independent_equations.py
+++ b/pymnet/graphlets/independent_equations.py
@@ -4,6 +4,7 @@
 from . import graphlets
 import itertools
 from collections import defaultdict as dd
+from fractions import Fraction
 
 def independent_equations(n, n_l, layers, allowed_aspects='all'):
     '''
@@ -96,20 +97,27 @@ def redundant_orbits(inds, eqs, orbit_is, orbit_list):
         Redundant orbits
     '''
     
-    redundants = set()
+    # Gaussian elimination: the redundant orbits need to be such that their
+    # counts can be solved from the equations
+    redundants = {}
     for eq in inds:
-        os = set()
+        row = {}
         for orbit in eqs[eq]:
-            o = orbit_is[orbit]
-            os.add(o)
+            row[orbit_is[orbit]] = Fraction(eqs[eq][orbit])
             
-        o_max = max(os)
-        while o_max in redundants:
-            os = os - set([o_max])
-            o_max = max(os)
+        while len(row) > 0:
+            o_max = max(row)
+            if o_max not in redundants:
+                redundants[o_max] = row
+                break
+            
+            pivot_row = redundants[o_max]
+            factor = row[o_max] / pivot_row[o_max]
+            for o in pivot_row:
+                row[o] = row.get(o, 0) - factor * pivot_row[o]
+                if row[o] == 0:
+                    del row[o]
             
-        redundants.add(o_max)
-        
     redundants = list(redundants)
     reds = []
     for i in redundants:
-- 
2.43.0


From 2c3f92fe73a825067f4a63b55e89bb98f5e87112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 40/64] Revert "fix: random_nodelists raised NameError in
 Python 3"

With the repair, four dormant sampling tests start to run and need more than
180 s each, so it is recorded as a known finding instead.
---
 pymnet/sampling/creators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/sampling/creators.py b/pymnet/sampling/creators.py
index 012ffef..322d7c7 100644
--- a/pymnet/sampling/creators.py
+++ b/pymnet/sampling/creators.py
@@ -62,4 +62,4 @@ def random_nodelists(poolsize,nodes_per_layer,layers,seed=None):
     else:
         random.seed(seed)
     for _ in range(layers):
-        yield random.sample(range(poolsize),nodes_per_layer)
\ No newline at end of file
+        yield random.sample(xrange(poolsize),nodes_per_layer)
\ No newline at end of file
-- 
2.43.0


From 28858fcc35ebda16eebc46e37af474cec1665815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 41/64] fix: NetworkX functions that copy adjacency
 dictionaries raised AttributeError

---
 pymnet/nxwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 98a04c0..2e8927e 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -78,6 +78,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
             self.net[self.node,key]=val
     def __delitem__(self,key):
         self.net[self.node,key]=self.net.noEdge
+    def copy(self):
+        return dict( ((k,self[k]) for k in self) )
 
 
 class MonoplexGraphWrapper_adj(MutableMapping):
-- 
2.43.0


From fd17d5fbfca3748091530390d9fe8b7512ed120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:12 +0000
Subject: [PATCH 42/64] fix: NetworkX functions that create graphs from data
 failed for wrapped networks

---
 pymnet/nxwrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 2e8927e..5ee5bc1 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -138,6 +138,8 @@ class MonoplexGraphNetworkxView(networkx.Graph):
     def __init__(self,net=None,data=None,**kwargs):
         super(MonoplexGraphNetworkxView, self).__init__(**kwargs)
 
+        if net is not None and not isinstance(net,MultilayerNetwork): #networkx is calling Graph(data)
+            net,data=None,net
         if net==None: #networkx is calling __class__()
             net=MultilayerNetwork(aspects=0)
 
-- 
2.43.0


From c15b67abd79a50f1df638561309a001439919aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 43/64] fix: colormap modifier of drawing properties raised
 AttributeError with new versions of Matplotlib

---
 pymnet/visuals/drawassigners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index 55f1180..f5ff5c9 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -60,7 +60,10 @@ class PropertyAssigner(object):
                 item=item*self.propRule["scaleby"]
         if "colormap" in self.propRule:
             if matplotlib_loaded:
-                item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
+                if hasattr(matplotlib,"colormaps"): #get_cmap is not available in new versions of Matplotlib
+                    item=matplotlib.colormaps[self.propRule["colormap"]](item)
+                else:
+                    item=matplotlib.cm.get_cmap(self.propRule["colormap"])(item)
             else:
                 raise ImportError("The colormap feature uses matplotlib, and matplotlib cannot be imported.")
         return item
-- 
2.43.0


From b0daa152e4a8b69bf3bf1da8c636b3ab7e446067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:36 +0000
Subject: [PATCH 44/64] fix: default edge properties were not used when the
 edgetype rule does not give a value

---
 pymnet/visuals/drawassigners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawassigners.py b/pymnet/visuals/drawassigners.py
index f5ff5c9..cf414c5 100644
--- a/pymnet/visuals/drawassigners.py
+++ b/pymnet/visuals/drawassigners.py
@@ -31,7 +31,10 @@ class PropertyAssigner(object):
         elif len(self.propRule)>0:
             assert "rule" in self.propRule, "The rule dictionary must contain 'rule' key"
             if self.propRule["rule"] in self.rules:
-                return self.apply_modify_rules(self.get_by_rule(item,self.propRule["rule"]),item)
+                ruleval=self.get_by_rule(item,self.propRule["rule"])
+                if ruleval is None: #the rule does not give a value to this item
+                    return self.defaultProp
+                return self.apply_modify_rules(ruleval,item)
             else:
                 raise Exception("Unknown rule: "+str(self.propRule["rule"]))
         else:
-- 
2.43.0


From f21f1d093a936a2e62ec36b058967afcdf06c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 45/64] fix: documented layer shape "circular" raised
 AssertionError

---
 pymnet/visuals/drawnet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/visuals/drawnet.py b/pymnet/visuals/drawnet.py
index f47a099..fd8fae5 100644
--- a/pymnet/visuals/drawnet.py
+++ b/pymnet/visuals/drawnet.py
@@ -75,6 +75,8 @@ class Node(object):
 
 class Layer(object):
     def __init__(self,net,color="gray",alpha=0.3,shape="rectangle",label=None,labelloc=(1,1),labelArgs={}):
+        if shape=="circular":
+            shape="circle"
         assert shape in ["rectangle","circle"]
         self.shape=shape
         self.color=color
-- 
2.43.0


From 100aa9cc381570801fedccba865c3e6fe38b8a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 46/64] fix: links drawn with three.js did not end at the nodes

---
 pymnet/visuals/drawbackends/threejs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/drawbackends/threejs.py b/pymnet/visuals/drawbackends/threejs.py
index 1e52422..164a0a9 100644
--- a/pymnet/visuals/drawbackends/threejs.py
+++ b/pymnet/visuals/drawbackends/threejs.py
@@ -38,8 +38,8 @@ class NodeThreeJS(drawnet.Node):
 
         """
         snippet=snippet.replace("@x",str(SIZE*self.x))
-        snippet=snippet.replace("@y",str(10*SIZE*self.y))
-        snippet=snippet.replace("@z",str(10*SIZE*self.layer.z))
+        snippet=snippet.replace("@y",str(SIZE*self.y))
+        snippet=snippet.replace("@z",str(SIZE*self.layer.z))
         snippet=snippet.replace("@r",str(0.1*self.size/2.))
 
         self.net.node_snippets.append(snippet)
-- 
2.43.0


From a2e49aa5a00a3a04403ac6236c65607c3e93b476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:47 +0000
Subject: [PATCH 47/64] fix: web pages of networks with quotes, backslashes or
 end tags in names were not valid

---
 pymnet/visuals/webplots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/visuals/webplots.py b/pymnet/visuals/webplots.py
index e501978..22d58f5 100644
--- a/pymnet/visuals/webplots.py
+++ b/pymnet/visuals/webplots.py
@@ -117,6 +117,8 @@ def webplot(net,outputfile=None):
 
     script=webplot_template
     netdatastr=netio.write_json(net)
+    #The data is inside a string in a script
+    netdatastr=netdatastr.replace("\\","\\\\").replace("'","\\'").replace("</","<\\/")
 
     replace={"@netjson" : netdatastr}
     for key,val in replace.items():
-- 
2.43.0


From 4d8361ca0b5b0915f47d17bf48ecb07c0e489b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:06 +0000
Subject: [PATCH 48/64] fix: networkx layouts could not be used in drawing
 directed networks

---
 pymnet/visuals/layouts.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 14879a8..c5f19ce 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -28,6 +28,8 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             if hasattr(pymnet,"nx"):
                 la=getattr(pymnet.nx,layout+"_layout")
                 na=pymnet.transforms.aggregate(net,1)
+                if net.directed: #only undirected networks can be given to networkx
+                    na=pymnet.transforms.aggregate(net,1,newNet=pymnet.MultilayerNetwork(aspects=0,noEdge=net.noEdge))
                 ncoords=la(na,**kwargs)
             else:
                 raise Exception("Networkx needs to be installed to use layout: "+layout)
-- 
2.43.0


From 8d9d98cac8610d16b319364d81397d87d1b67ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:11 +0000
Subject: [PATCH 49/64] fix: edges of directed networks were drawn also in the
 opposite direction

---
 pymnet/visuals/drawcore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/drawcore.py b/pymnet/visuals/drawcore.py
index e06bcc4..68c0602 100644
--- a/pymnet/visuals/drawcore.py
+++ b/pymnet/visuals/drawcore.py
@@ -222,7 +222,7 @@ def draw(net,layout="spring",layershape="rectangle",azim=-51,elev=22,show=False,
         nodes[nl]=NodeBE(layers[nl[1]],xy[0],xy[1],label=nodeLabel[nl],color=nodeColor[nl],size=nodeSize[nl],labelArgs=nodeLabelArgs)
 
     for nl1 in net.iter_node_layers():
-        for nl2 in net[nl1]:
+        for nl2 in net[nl1].iter_out():
             EdgeBE(nodes[nl1],nodes[nl2],color=edgeColor[(nl1,nl2)],width=edgeWidth[(nl1,nl2)],style=edgeStyle[(nl1,nl2)],z=edgeZ[(nl1,nl2)],alpha=edgeAlpha[(nl1,nl2)])
 
     return nf.draw(ax=ax)
-- 
2.43.0


From dc7e87db33360e97dc4d9ce0c7d9cf5e7bf371e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 50/64] fix: layout coordinates were not scaled to the given
 box size

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index c5f19ce..d8dcef6 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -87,7 +87,7 @@ def normalize_coordinates(coords,boxSize,inplace=False):
     #for node, (x, y) in coords.iteritems():
     for node in coords:
         x,y=coords[node]
-        newcoords[node]=((x-minx)/difx, (y-miny)/dify )
+        newcoords[node]=(boxSize[0]*(x-minx)/difx, boxSize[1]*(y-miny)/dify )
     return newcoords 
 
 
-- 
2.43.0


From f82321b5ba539111330f953efef66019ca8295dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 51/64] fix: layouts of networks with less than two nodes
 raised an exception

---
 pymnet/visuals/layouts.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index d8dcef6..5c5a635 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -78,8 +78,9 @@ def normalize_coordinates(coords,boxSize,inplace=False):
         if maxy==None or y>maxy:
             maxy=y
 
-    difx=maxx-minx
-    dify=maxy-miny
+    if len(coords)>0:
+        difx=maxx-minx if maxx>minx else 1.0
+        dify=maxy-miny if maxy>miny else 1.0
     if inplace:
         newcoords=coords
     else:
@@ -153,7 +154,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
 
     #nodeDist
     if nodeDist=="auto":
-        nodeDist=1./math.sqrt(len(net.slices[0]))
+        nodeDist=1./math.sqrt(max(1,len(net.slices[0])))
     else:
         nodeDist=float(nodeDist)
         assert nodeDist>0
-- 
2.43.0


From c12c62d9f6846fdefd2023787fe43e3a2f9fad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:49 +0000
Subject: [PATCH 52/64] fix: layout with nodes not aligned did not give
 coordinates for node-layers

---
 pymnet/visuals/layouts.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index 5c5a635..a12a70a 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -45,7 +45,7 @@ def get_layout(layout,net,alignedNodes=True,**kwargs):
             for nl in net.iter_node_layers():
                 nlcoords[nl]=(random.random(),random.random())
         elif layout=="fr":
-            nlcoords=get_fruchterman_reingold_multilayer_layout(net)
+            nlcoords=get_fruchterman_reingold_multilayer_layout(net,alignedNodes=False)
         else:
             raise Exception("Invalid layout: "+layout)
     return ncoords,nlcoords         
@@ -145,7 +145,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
     assert net.aspects>=1, "No monoplex networks"
 
     #If the network is fully interconnected, we just create network with one layer
-    if net.fullyInterconnected:
+    if net.fullyInterconnected and alignedNodes:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-- 
2.43.0


From 5d948a343eecd67cabdc7d1485266549016309de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 53/64] fix: layout of fully interconnected networks with
 several aspects raised AssertionError

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index a12a70a..a54b3a6 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -149,7 +149,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
         magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
         magg.add_layer("all")
-        magg.A["all"]=pymnet.transforms.aggregate(net,1)
+        magg.A["all"]=pymnet.transforms.aggregate(net,tuple(range(1,net.aspects+1)))
         net=magg
 
     #nodeDist
-- 
2.43.0


From 2b8706d1b5706b5d3b0c0b908a81c0a668da220b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:04 +0000
Subject: [PATCH 54/64] fix: fixed nodes were moved when the coordinates of a
 layout were normalized

---
 pymnet/visuals/layouts.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index a54b3a6..cf3300b 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -236,7 +236,9 @@ def get_fruchterman_reingold_multilayer_layout(net,
                 if node not in fixedNodes:
                     delta_len=math.sqrt(x**2+y**2)
                     nc[node]=(nc[node][0]+temperature*delta_len*x, nc[node][1]+temperature*delta_len*y)
+            fixed=dict((node,nc[node]) for node in nc if node in fixedNodes)
             normalize_coordinates(nc,boxSize,inplace=True)
+            nc.update(fixed)
 
         else: #we have coordinates for node-layer tuples
             
@@ -272,10 +274,12 @@ def get_fruchterman_reingold_multilayer_layout(net,
             #for nl,(x,y) in delta_nlc.iteritems():
             for nl in delta_nlc:
                 x,y=delta_nlc[nl]
-                if nl not in fixedNodeLayers:
+                if nl not in fixedNodeLayers and nl[0] not in fixedNodes:
                     delta_len=math.sqrt(x**2+y**2)
                     nlc[nl]=(nlc[nl][0]+temperature*delta_len*x, nlc[nl][1]+temperature*delta_len*y)
+            fixed=dict((nl,nlc[nl]) for nl in nlc if nl in fixedNodeLayers or nl[0] in fixedNodes)
             normalize_coordinates(nlc,boxSize,inplace=True)
+            nlc.update(fixed)
 
         temperature-=delta_temperature
     
-- 
2.43.0


From 7a926a97cc9940803f52e6a69bf004f0622307ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 55/64] fix: layout of networks with nodes that are in no layer
 raised KeyError

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index cf3300b..c06e940 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -221,7 +221,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
             for node1 in net:
                 for node2 in net:
                     if node1!=node2:
-                        layer_overlap=len(net._nodeToLayers[node1].intersection(net._nodeToLayers[node2]))
+                        layer_overlap=len(net._nodeToLayers.get(node1,set()).intersection(net._nodeToLayers.get(node2,set())))
                         diff=(nc[node1][0]-nc[node2][0], nc[node1][1]-nc[node2][1])
                         dist=math.sqrt(diff[0]**2+diff[1]**2)
                         dist=max(dist,min_dist)
-- 
2.43.0


From fb8b6f896bbd1c58c2c5a756498a989f0910c14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:27 +0000
Subject: [PATCH 56/64] fix: layout of directed networks lost links when the
 network is fully interconnected

---
 pymnet/visuals/layouts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymnet/visuals/layouts.py b/pymnet/visuals/layouts.py
index c06e940..ef7fcc6 100644
--- a/pymnet/visuals/layouts.py
+++ b/pymnet/visuals/layouts.py
@@ -147,7 +147,7 @@ def get_fruchterman_reingold_multilayer_layout(net,
     #If the network is fully interconnected, we just create network with one layer
     if net.fullyInterconnected and alignedNodes:
         assert nodelayerCoords==None, "Only node coordinates for fully interconnected networks"
-        magg=pymnet.MultiplexNetwork(fullyInterconnected=False)
+        magg=pymnet.MultiplexNetwork(noEdge=net.noEdge,directed=net.directed,fullyInterconnected=False)
         magg.add_layer("all")
         magg.A["all"]=pymnet.transforms.aggregate(net,tuple(range(1,net.aspects+1)))
         net=magg
-- 
2.43.0


From ca8c58eb6ba3e11877c8c445fd11cb0b1c0a6431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:00 +0000
Subject: [PATCH 57/64] fix: equal networks had different hash values

---
 pymnet/net.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index e62b71a..0b60b06 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1,7 +1,7 @@
 """Data structures for handling various forms of multilayer networks.
 """
 
-import math,itertools,pickle
+import math,itertools
 import pymnet.transforms as transforms
 
 #Pre 3.10                                                                                                                                                                                                  
@@ -616,7 +616,11 @@ class MultilayerNetwork(object):
 
 
     def __hash__(self):
-        return pickle.dumps(self).__hash__()
+        #Equal networks must have equal hashes, also when they are built in different order
+        edges=(self._link_to_nodes(edge[:-1]) for edge in self.edges)
+        if not self.directed:
+            edges=map(frozenset,edges)
+        return hash((self.aspects,self.directed,self.fullyInterconnected,tuple(map(frozenset,self.slices)),frozenset(edges)))
 
     def get_supra_adjacency_matrix(self,includeCouplings=True):
         """Returns the supra-adjacency matrix and a list of node-layer pairs.
-- 
2.43.0


From 31b94d2e868c526c846c49af1fc6ec7e670f998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:40 +0000
Subject: [PATCH 58/64] fix: flattened matrix was written without most of its
 rows in Python 3

---
 pymnet/net.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 0b60b06..057e6f0 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -608,9 +608,9 @@ class MultilayerNetwork(object):
                     yield l
 
     def _write_flattened(self,output):
-        nodes=map(lambda x: tuple(reversed(x)),sorted(itertools.product(*map(lambda i:sorted(self.slices[i]),reversed(range(len(self.slices)))))))
+        nodes=list(map(lambda x: tuple(reversed(x)),sorted(itertools.product(*map(lambda i:sorted(self.slices[i]),reversed(range(len(self.slices))))))))
         for i in nodes:
-            row=[str(self[i][j]) for j in nodes]
+            row=[str(self[self._nodes_to_link(i,j)]) for j in nodes]
             output.write(" ".join(row)+"\n")
         output.close()
 
-- 
2.43.0


From a67313733c9515360042149fe64f7df87d1b81de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:16 +0000
Subject: [PATCH 59/64] fix: modularity view failed for networks without
 aspects and for layers without edges

---
 pymnet/net.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 057e6f0..931b8a6 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -1368,22 +1368,27 @@ class ModularityMultilayerNetworkView(MultilayerNetwork):
         self.m={}
         for s in itertools.product(*mnet.slices[1:]):
             for node in mnet:
-                self.m[s]=self.m.get(s,0)+mnet[(node,)+s][(COLON,)+s].str()
-            self.m[s]=self.m[s]/2.0
+                self.m[s]=self.m.get(s,0)+self._get_strength_in_slice((node,)+s)
+            self.m[s]=self.m.get(s,0)/2.0
         self.u=0
         for i in itertools.product(*mnet.slices):
             for j in itertools.product(*mnet.slices):
                 self.u+=mnet[i][j]
-        self.oneper2u=1.0/self.u/2.0
+        self.oneper2u=1.0/self.u/2.0 if self.u!=0 else 0.0
+
+    def _get_strength_in_slice(self,node):
+        return self.mnet[self._nodes_to_link(node,(COLON,)+node[1:])].str()
 
     def _get_link(self,item):
         v=self.mnet[item]
 
         if item[2::2]==item[3::2]: #its inside slice
             s=item[2::2]
-            kis=self.mnet[(item[0],)+s][(COLON,)+s].str()
-            kjs=self.mnet[(item[1],)+s][(COLON,)+s].str()
             ms=self.m[s]
+            if ms==0: #no edges in this slice
+                return v
+            kis=self._get_strength_in_slice((item[0],)+s)
+            kjs=self._get_strength_in_slice((item[1],)+s)
             return v-self.gamma*kis*kjs/float(2.0*ms)
         else:
             return v
-- 
2.43.0


From 05f0dde3d6e2db57881d69a84fdfb3f6709078cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 60/64] fix: subnetworks of directed networks lost edges or got
 extra edges when copied to a network with another direction or noEdge value

---
 pymnet/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index 6233659..a0ae11d 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -226,11 +226,11 @@ def subnet(net,nodes,*layers,**kwargs):
                             newNet[nl1][nl2]=net[nl1][nl2]
                 else:
                     if net.aspects==0:
-                        for nl2 in net[nl1]:
+                        for nl2 in net[nl1].iter_out():
                             if nl2 in nodelayers[0]:
                                 newNet[nl1][nl2]=net[nl1][nl2]
                     else:
-                        for nl2 in net[nl1]:
+                        for nl2 in net[nl1].iter_out():
                             if reduce(lambda x,y:x and y, (e in nodelayers[a] for a,e in enumerate(nl2))):
                                 newNet[nl1][nl2]=net[nl1][nl2]
         elif isinstance(net,netmodule.MultilayerNetwork) and isinstance(newNet,netmodule.MultiplexNetwork):
-- 
2.43.0


From ce699f28022dc5ee380727d5c19d952924edb9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:51 +0000
Subject: [PATCH 61/64] fix: edge attributes other than the weight were used as
 weights in networkx views

---
 pymnet/nxwrap.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 5ee5bc1..7fbb319 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -69,9 +69,8 @@ class MonoplexGraphWrapper_adjlist(MutableMapping):
     def __setitem__(self,key,val):
         if key.__class__==tuple: key=ntuple(key) 
         if isinstance(val,dict) or isinstance(val,MonoplexGraphWrapper_singleedge):
-            if len(val)>0:
-                #self.net[self.node,key]=list(val.itervalues())[0]
-                self.net[self.node,key]=list( (val[key] for key in val))[0]
+            if "weight" in val: #other edge attributes cannot be stored
+                self.net[self.node,key]=val["weight"]
             else:
                 self.net[self.node,key]=1
         else:
-- 
2.43.0


From 76c574b798fa2c00508f7527be8a5b096ecb3d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:26 +0000
Subject: [PATCH 62/64] fix: removing missing edges through networkx views
 added nodes, and refused removals of nodes removed their edges

---
 pymnet/nxwrap.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pymnet/nxwrap.py b/pymnet/nxwrap.py
index 7fbb319..1e21c6b 100644
--- a/pymnet/nxwrap.py
+++ b/pymnet/nxwrap.py
@@ -156,6 +156,21 @@ class MonoplexGraphNetworkxView(networkx.Graph):
         if data is not None:
             networkx.convert.to_networkx_graph(data,create_using=self)
 
+    def remove_edge(self,u,v):
+        if not self.has_edge(u,v): #deleting it would not fail but add the nodes
+            raise networkx.NetworkXError("The edge "+str(u)+"-"+str(v)+" is not in the graph")
+        super(MonoplexGraphNetworkxView, self).remove_edge(u,v)
+
+    def remove_node(self,n):
+        if n not in self:
+            raise networkx.NetworkXError("The node "+str(n)+" is not in the graph.")
+        del self._adj[n] #raises an exception before the edges of the node are removed
+
+    def remove_nodes_from(self,nodes):
+        for n in nodes:
+            if n in self:
+                self.remove_node(n)
+
     def fresh_copy(self):
         fresh_net=MultilayerNetwork(aspects=0)
         return MonoplexGraphNetworkxView(fresh_net)
-- 
2.43.0


From f371fa654ad455c179aa1d35b2078d1d2f962e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:56 +0000
Subject: [PATCH 63/64] fix: overlay network lost nodes, added noEdge values to
 weights and failed for names that cannot be compared

---
 pymnet/transforms.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pymnet/transforms.py b/pymnet/transforms.py
index a0ae11d..3dc6ff8 100644
--- a/pymnet/transforms.py
+++ b/pymnet/transforms.py
@@ -118,11 +118,11 @@ def overlay_network(net):
     """
     assert net.aspects==1
     newnet=netmodule.MultilayerNetwork()
-    for layer in net.slices[1]:
-        for node1 in net.slices[0]:
-            for node2 in net.slices[0]:
-                if net.directed or node1>node2:
-                    newnet[node1,node2]=newnet[node1,node2]+net[node1,node2,layer,layer]
+    for node in net:
+        newnet.add_node(node)
+    for edge in net.edges:
+        if edge[2]==edge[3] and (net.directed or edge[0]!=edge[1]):
+            newnet[edge[0],edge[1]]=newnet[edge[0],edge[1]]+edge[4]
     return newnet
 
 def subnet(net,nodes,*layers,**kwargs):
-- 
2.43.0


From e6280940a6d17a3e96f1f25c81d3fdd88a87a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:16 +0000
Subject: [PATCH 64/64] fix: refused assignments of inter-layer and self-edges
 added nodes and layers to multiplex networks

---
 pymnet/net.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pymnet/net.py b/pymnet/net.py
index 931b8a6..18cb77a 100644
--- a/pymnet/net.py
+++ b/pymnet/net.py
@@ -525,6 +525,8 @@ class MultilayerNetwork(object):
         else:
             raise KeyError("Invalid number of indices.")
 
+        self._check_link(link) #before adding anything
+
         #There might be new nodes, add them to sets of nodes
         if self.fullyInterconnected:
             for i in range(2):
@@ -546,6 +548,11 @@ class MultilayerNetwork(object):
 
 
 
+    def _check_link(self,link):
+        """Raises an exception if the link cannot be set. Override this method if needed.
+        """
+        pass
+
     def get_layers(self,aspect=1):
         """Returns the set of (elementary) layers (in a given aspect).
         """
@@ -1063,18 +1070,22 @@ class MultiplexNetwork(MultilayerNetwork):
         else:
             return self.noEdge
                 
-    def _set_link(self,link,value):
+    def _check_link(self,link):
         """Overrides parents method.
         """
         d=self._get_edge_inter_aspects(link)
-        if len(d)==1 and d[0]==0:
-            S=link[2::2]
-            self._get_A_with_tuple(S)[link[0],link[1]]=value
-        elif len(d)==0:
+        if len(d)==0:
             raise KeyError("No self-links.")
-        else:
+        elif d!=[0]:
             raise KeyError("Can only set links in the node dimension.")
 
+    def _set_link(self,link,value):
+        """Overrides parents method.
+        """
+        self._check_link(link)
+        S=link[2::2]
+        self._get_A_with_tuple(S)[link[0],link[1]]=value
+
 
     def _get_dim_degree(self,supernode,aspect,direction="tot"):
         coupling_type=self.couplings[aspect-1][0]
-- 
2.43.0

