From 61c73c1c045b06fd51d6e39526bcbf1c29ebc110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 01/36] fix: R2rot returns an array axis for the identity, so
 it can be passed to rot2q

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index bea5303..4fa8855 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -108,7 +108,7 @@ def R2rot(R):
     if sin_theta < 1e-6:
                
         if (cos_theta > 0):
-            return [0,0,1], 0
+            return np.array([0.,0.,1.]), 0.0
         else:
             B = (1.0/2.0) *(R + np.eye(3))
             k = np.sqrt([B[0,0], B[1,1], B[2,2]])
-- 
2.43.0


From 8ec39bef9c57dce0ba4283d2823b8719bbc99c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 02/36] fix: R2rot near theta = pi gave NaN or wrong-signed
 axes through rounding

---
 .../general_robotics_toolbox.py                      | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 4fa8855..f242843 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -110,14 +110,10 @@ def R2rot(R):
         if (cos_theta > 0):
             return np.array([0.,0.,1.]), 0.0
         else:
-            B = (1.0/2.0) *(R + np.eye(3))
-            k = np.sqrt([B[0,0], B[1,1], B[2,2]])
-            if np.abs(k[0]) > 1e-6:
-                k[1] = k[1] * np.sign(B[0,1] / k[0])
-                k[2] = k[2] * np.sign(B[0,2] / k[0])
-            elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[0,2] / k[1])
-            return k, np.pi
+            # B = k*k^T, use the column with the largest diagonal for accuracy
+            B = (1.0/4.0) *(R + R.transpose()) + (1.0/2.0) * np.eye(3)
+            k = B[:,np.argmax(np.diag(B))]
+            return k/np.linalg.norm(k), np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
     return k, theta
-- 
2.43.0


From fd649fc20458e40c1c35dd8fec9c34e59dab95e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 03/36] fix: q2rot returned NaN or a non-unit axis for q0 at or
 just beyond +-1

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index f242843..724a461 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -203,10 +203,11 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    theta = 2 * np.arccos(q[0])
-    if np.abs(theta) < 1e-6:
-        return np.array([0,0,1]), 0.0
-    k = q[1:4]/np.sin(theta/2.0)
+    sin_theta_2 = np.linalg.norm(q[1:4])
+    if sin_theta_2 < 5e-7:
+        return np.array([0.,0.,1.]), 0.0
+    k = q[1:4]/sin_theta_2
+    theta = 2 * np.arctan2(sin_theta_2, q[0])
     return k, theta
 
 def rot2q(k, theta):
-- 
2.43.0


From 1a05e3e3b91df372073c31b6d9673ab8e055eaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 04/36] fix: slerp returned NaN when rounding put the dot
 product above 1

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 724a461..92ae553 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -318,7 +318,7 @@ def slerp(q0, q1, t):
     if (np.dot(q0,q1) < 0):
         q0 = -q0
     
-    theta = np.arccos(np.dot(q0,q1))
+    theta = np.arccos(np.clip(np.dot(q0,q1),-1.0,1.0))
     
     if (np.abs(theta) < 1e-6):
         return q0
-- 
2.43.0


From 1fc19fa5346e7853e40d5655eaecb9dc42b899f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 05/36] fix: subproblem0 and subproblem1 rejected valid vectors
 because of rounding

---
 .../general_robotics_toolbox.py                    | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 92ae553..d126639 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -653,12 +653,12 @@ def subproblem0(p, q, k):
     :return: theta angle as scalar in radians
     """
     
-    eps = np.finfo(np.float64).eps    
-    assert (np.dot(k,p) < eps) and (np.dot(k,q) < eps), \
-           "k must be perpendicular to p and q"
-    
     norm = np.linalg.norm
     
+    tol = np.sqrt(np.finfo(np.float64).eps)
+    assert (np.abs(np.dot(k,p)) < tol*norm(p)) and (np.abs(np.dot(k,q)) < tol*norm(q)), \
+           "k must be perpendicular to p and q"
+    
     ep = p / norm(p)
     eq = q / norm(q)
     
@@ -697,10 +697,14 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
+    # Any angle is a solution if p or q is along k
+    if norm(pp) < eps*norm(p) or norm(qp) < eps*norm(q):
+        return 0.0
+    
     epp = np.divide(pp, norm(pp))    
     eqp = np.divide(qp, norm(qp))
     
-    theta = subproblem0(epp, eqp, k)
+    theta = np.arctan2(np.dot(k,np.cross(epp, eqp)), np.dot(epp, eqp))
     
     if (np.abs(norm(p) - norm(q)) > norm(p)*1e-2):
         warnings.warn("||p|| and ||q|| must be the same!!!")
-- 
2.43.0


From 1c94499d7e4b32a9e27c570d5b5b5fb9c62b3e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 06/36] fix: subproblem2 with tangent cones solved the wrong
 equations or found no solution

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index d126639..53440f8 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -753,7 +753,8 @@ def subproblem2(p, q, k1, k2):
     a = np.matmul([[k12, -1], [-1, k12]],[pk, qk]) / (k12**2 - 1)
     
     bb = (np.dot(p,p) - np.dot(a,a) - 2*a[0]*a[1]*k12)
-    if (np.abs(bb) < eps): bb=0
+    # Tangent cones, bb may be slightly negative due to rounding
+    if (np.abs(bb) < eps or (bb < 0 and bb > -1e-12*np.dot(p,p))): bb=0
     
     if (bb < 0):
         warnings.warn("No solution - no intersection found between cones")
@@ -763,8 +764,8 @@ def subproblem2(p, q, k1, k2):
     if (np.abs(gamma) < eps):
         cm=np.array([k1, k2, np.cross(k1,k2)]).T
         c1 = np.dot(cm, np.hstack((a, gamma)))
-        theta2 = subproblem1(k2, p, c1)
-        theta1 = -subproblem1(k1, q, c1)
+        theta2 = subproblem1(p, c1, k2)
+        theta1 = -subproblem1(q, c1, k1)
         return [(theta1, theta2)]
     
     cm=np.array([k1, k2, np.cross(k1,k2)]).T
-- 
2.43.0


From e52b59de63808e469de83b8016293e11b21a3b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 07/36] fix: subproblem3 found no solution at full extension or
 retraction because of rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 53440f8..4c49c74 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -808,6 +808,9 @@ def subproblem3(p, q, k, d):
     
     bb=-(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)/(2*norm(pp)*norm(qp))
     
+    # bb may be slightly greater than 1 due to rounding
+    if np.abs(bb) > 1 and np.abs(bb) < 1 + 1e-12: bb = np.sign(bb)
+    
     if dpsq < 0 or np.abs(bb) > 1:
         warnings.warn("No solution - no rotation can achieve specified distance")
         return []
-- 
2.43.0


From 7a563d950a8ff6d7ec70b224b3ce47a2cc2a3176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 08/36] fix: subproblem4 returned NaN for too negative or
 rotation independent displacements

---
 .../general_robotics_toolbox.py                    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 4c49c74..9dfc83c 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -850,9 +850,19 @@ def subproblem4(p, q, k, d):
     
     phi = np.arctan2(b, a)
     
-    d = c / np.linalg.norm([a,b])
+    ab = np.linalg.norm([a,b])
+    tol = 1e-12*np.linalg.norm(p)*np.linalg.norm(q)
     
-    if d > 1:
+    if ab <= tol:
+        # p or q is along k, displacement does not depend on theta
+        return [0.0] if np.abs(c) <= tol else []
+    
+    d = c / ab
+    
+    # d may be slightly out of range due to rounding
+    if np.abs(d) > 1 and np.abs(d) < 1 + 1e-12: d = np.sign(d)
+    
+    if np.abs(d) > 1:
         return []
     
     psi = np.arcsin(d)
-- 
2.43.0


From 605bc5af2da904eaac2563fd4548981550cb6d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 09/36] fix: Transform shared its position with the array it
 was constructed from

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 9dfc83c..7463273 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -476,7 +476,7 @@ class Transform(object):
         assert (np.shape(p) == (3,) or np.shape(p) ==(3,1))
         
         self.R=np.array(R)
-        self.p=np.reshape(p,(3,))
+        self.p=np.array(np.reshape(p,(3,)))
         self.parent_frame_id=parent_frame_id
         self.child_frame_id=child_frame_id
         
-- 
2.43.0


From 4f6a06f29de7e7a5461e5282b9e12bb4daf37dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 10/36] fix: robot6_sphericalwrist_invkin modified robot.P

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 8606696..0888698 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -143,7 +143,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.copy(robot.P)
     
     theta_v = []
     
-- 
2.43.0


From 3c6acd53e56d022c21e3574cece3014b85f3cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 11/36] fix: inverse kinematics with last_joints raised
 ValueError instead of returning an empty list

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 0888698..b48ee51 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -220,7 +220,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 q6 = q6[0]
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -319,7 +319,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
 
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -384,7 +384,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
                 continue
         theta_ret.append(eq_theta)
     
-    if last_joints is not None:
+    if last_joints is not None and len(theta_ret) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)
         return [theta_ret[i] for i in list(np.argsort(theta_dist))]
     else:
-- 
2.43.0


From 44835c862af8f584fdebdaa0092e06a44a6e0fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 12/36] fix: ur_invkin ignored the limits and last position of
 joint 5

---
 .../general_robotics_toolbox_invkin.py                       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index b48ee51..454df9a 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -287,6 +287,11 @@ def ur_invkin(robot, desired_pose, last_joints = None):
             p3 = P[:,3]
             Q3 = rox.subproblem3(p3, v3, H[:,2], d3)
 
+            q5 = normalize(4, [q5])
+            if len(q5) == 0:
+                continue
+            q5 = q5[0]
+
             for q3 in normalize(2,Q3):
                 R23 = rox.rot(H[:,2],q3)
                 v2 = np.matmul(R01.T,p23p)
-- 
2.43.0


From e6f626f8555f4284e5c16695b2725a6206caa2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 13/36] fix: equivalent_configurations returned configurations
 it was given

---
 .../general_robotics_toolbox_invkin.py                       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 454df9a..fe71f5c 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -384,9 +384,8 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     theta_ret =[]
 
     for eq_theta in equiv_theta:
-        for theta1 in theta_v:
-            if np.allclose(theta1, eq_theta):
-                continue
+        if any(np.allclose(theta1, eq_theta) for theta1 in theta_v):
+            continue
         theta_ret.append(eq_theta)
     
     if last_joints is not None and len(theta_ret) > 0:
-- 
2.43.0


From 929e3240207901e5068eb45773bb4a610d047612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 14/36] fix: inverse kinematics dropped solutions more than one
 revolution outside the joint limits

---
 .../general_robotics_toolbox_invkin.py                 | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index fe71f5c..4f8517f 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -58,12 +58,12 @@ class normalize_joints(object):
             u = self._upper_limit[joint]
             
             if not (l < theta and theta < u ):
-                a = 2*np.pi*np.array([-1,1])
-                b = a + theta
-                c = np.argwhere(np.logical_and(l < b,  b < u))
-                if len(c) == 0:
+                # Smallest number of revolutions that reaches the limits
+                n = np.ceil((l - theta)/(2*np.pi)) if theta <= l else np.floor((u - theta)/(2*np.pi))
+                b = theta + 2*np.pi*n
+                if not (l < b and b < u):
                     return None                
-                theta += (a[c[0]]).item()
+                theta = b
         
         if self._use_last_joints:
             diff = self._last_joints[joint] - theta                               
-- 
2.43.0


From 22237cd991bcf7f3fa0fd93766cc907ad2f0fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 15/36] fix: inverse kinematics with last_joints dropped the
 only reachable or the closest configuration

---
 .../general_robotics_toolbox_invkin.py                     | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 4f8517f..1917891 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -106,13 +106,6 @@ class normalize_joints(object):
         else:
             theta_dist = np.linalg.norm(np.subtract(theta_normed,theta_last), axis=1)
         
-        #Heuristic pruning of last_joints
-        theta_ret1 = [t for t in theta_normed if np.all(np.less(np.abs(t - theta_last), np.pi/2.0))]        
-        if len(theta_ret1) == 1:
-            return theta_ret1
-        if len(theta_ret1) == 0:
-            theta_ret1 = theta_normed
-        
         return [theta_normed[i] for i in list(np.argsort(theta_dist))]
         
   
-- 
2.43.0


From 44667afc09c699c0386a6eb3b3ebcd9c816ebb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:03 +0000
Subject: [PATCH 16/36] fix: load_robot_info_yaml_to_robot ignored
 joint_numbers when reading joint_info

---
 src/general_robotics_toolbox/robotraconteur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 216b01b..5554379 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -122,7 +122,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
     joint_names = [None]*joint_count
 
     for i in range(joint_count):
-        j = robot_yml["joint_info"][i]
+        j = robot_yml["joint_info"][chain["joint_numbers"][i]]
         if j["joint_type"] == "revolute":
             # Revolute joint
             joint_type[i] = 0
-- 
2.43.0


From cf27cc5f6e5313aa2850f4dc4c6fcd8a09be3966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 17/36] fix: iterative_invkin shifted prismatic joints by
 multiples of 2*pi

---
 .../general_robotics_toolbox_invkin.py                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 1917891..4637d28 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -49,10 +49,17 @@ class normalize_joints(object):
         self._check_limits = self._lower_limit is not None \
             and self._upper_limit is not None and not _ignore_limits
                   
+        self._joint_type = robot.joint_type
         self._last_joints = last_joints
         self._use_last_joints = last_joints is not None
             
     def normalize(self, joint, theta):
+        if self._joint_type[joint] in (1,3):
+            # Prismatic joints do not repeat every 2*pi
+            if self._check_limits and not (self._lower_limit[joint] < theta and theta < self._upper_limit[joint]):
+                return None
+            return theta
+        
         if self._check_limits:
             l = self._lower_limit[joint]
             u = self._upper_limit[joint]
-- 
2.43.0


From 38f305e1cb5fda847b9fb61662f9ef1161a88ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:37 +0000
Subject: [PATCH 18/36] fix: iterative_invkin failed for list or tuple seeds
 and for one joint robots

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 4637d28..3caafa5 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -426,11 +426,11 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
     R_d = desired_pose.R
     p_d = desired_pose.p
     
-    d_q = q_current
+    d_q = np.asarray(q_current, dtype=np.float64)
 
     num_joints = len(robot.joint_type)
 
-    normalize = normalize_joints(robot, q_current, _ignore_limits = True)
+    normalize = normalize_joints(robot, d_q.flatten(), _ignore_limits = True)
     
     q_cur = d_q # initial guess on the current joint angles
     q_cur = q_cur.reshape((num_joints,1)) 
@@ -495,6 +495,6 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         itr += 1 # Increase the iteration
 
 
-    q_normed = normalize(np.arange(num_joints), [np.squeeze(q_cur)])
+    q_normed = normalize(np.arange(num_joints), [q_cur.flatten()])
     
     return converged, q_normed
\ No newline at end of file
-- 
2.43.0


From 943dd7f61000508f83ec7c3dc68e6562c6c90991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:41 +0000
Subject: [PATCH 19/36] fix: equivalent_configurations truncated integer angles
 and failed for tuples

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 3caafa5..e57bafc 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -351,6 +351,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     
     equiv_theta = []
     for theta1 in theta_v:
+        theta1 = np.array(theta1, dtype=np.float64)
         equiv_theta1 = []
         upper_div, _ = np.divmod(robot.joint_upper_limit - theta1, 2*np.pi)
         lower_div, _ = np.divmod(theta1 - robot.joint_lower_limit, 2*np.pi)
-- 
2.43.0


From 4c495f40661e02c6089965f7f900a40bca7b8db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 20/36] fix: subproblem1 returned 0 for short vectors

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 7463273..6c7b8b2 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -688,7 +688,7 @@ def subproblem1(p, q, k):
     eps = np.finfo(np.float64).eps
     norm = np.linalg.norm
     
-    if norm (np.subtract(p, q)) < np.sqrt(eps):
+    if norm (np.subtract(p, q)) <= np.sqrt(eps)*norm(p):
         return 0.0
     
     
-- 
2.43.0


From 689a4c73052d94ca26e11f0bc9fb7b592029b1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:14 +0000
Subject: [PATCH 21/36] fix: subproblem3 returned NaN or no solution for
 rotation independent distances

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 6c7b8b2..a376b28 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -806,6 +806,11 @@ def subproblem3(p, q, k, d):
     qp = np.subtract(q,np.dot(np.dot(q, k),k))
     dpsq = d**2 - ((np.dot(k, np.add(p,q)))**2)
     
+    # Distance does not depend on the rotation if p or q is along k
+    tol = 1e-12*(norm(p) + norm(q))
+    if norm(pp) <= tol or norm(qp) <= tol:
+        return [0.0] if np.abs(np.abs(d) - norm(np.add(p,q))) <= tol else []
+    
     bb=-(np.dot(pp,pp) + np.dot(qp,qp) - dpsq)/(2*norm(pp)*norm(qp))
     
     # bb may be slightly greater than 1 due to rounding
-- 
2.43.0


From a9279c5d18d3ea47091640ea1cd5969660ba5360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:44 +0000
Subject: [PATCH 22/36] fix: subproblem3 found no solution at full retraction
 when rounding made the planar distance negative

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index a376b28..3dcdbb7 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -816,7 +816,7 @@ def subproblem3(p, q, k, d):
     # bb may be slightly greater than 1 due to rounding
     if np.abs(bb) > 1 and np.abs(bb) < 1 + 1e-12: bb = np.sign(bb)
     
-    if dpsq < 0 or np.abs(bb) > 1:
+    if np.abs(bb) > 1:
         warnings.warn("No solution - no rotation can achieve specified distance")
         return []
     
-- 
2.43.0


From 1698240fc84d08076c1cbb14be222e708f92521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 23/36] fix: subproblem2 returned NaN for parallel axes whose
 dot product carries rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 3dcdbb7..4b19e4b 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -746,7 +746,7 @@ def subproblem2(p, q, k1, k2):
     qk = np.dot(q, k1)
     
     # check if solution exists
-    if (np.abs( 1 - k12**2) < eps):
+    if (np.abs( 1 - k12**2) < 1e-12):
         warnings.warn("No solution - k1 != k2")
         return []
     
-- 
2.43.0


From 082ccbada6260d0b9eefa247ae42c2558c322691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:00 +0000
Subject: [PATCH 24/36] fix: analytic inverse kinematics returned wrong joints
 when the first joint axis does not pass through the origin

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index e57bafc..76d0aa4 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -161,7 +161,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
         P[:,5] = np.zeros(3)       
     
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])
-    v1 = p0T - R06.dot(P[:,6])    
+    v1 = p0T - P[:,0] - R06.dot(P[:,6])    
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
@@ -172,7 +172,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 
         R01=rox.rot(H[:,0], q1)
         
-        p26_q1 = R01.T.dot(p0T - R06.dot(P[:,6])) - (P[:,0] + P[:,1])
+        p26_q1 = R01.T.dot(v1) - P[:,1]
         
         d3 = np.linalg.norm(p26_q1)
         v3 = P[:,2]        
@@ -260,7 +260,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
 
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
     p04 = p0T - np.matmul(R06,P[:,6] + P[:,5])
-    v1 = p04
+    v1 = p04 - P[:,0]
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
-- 
2.43.0


From 2b05ca00d3b5a6b929727947c298b5867bfcec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 25/36] fix: robot6_sphericalwrist_invkin refused wrist offsets
 along the joint axis that carry rounding

---
 .../general_robotics_toolbox_invkin.py                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 76d0aa4..4963c94 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -150,13 +150,13 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     #Correct for spherical joint position vectors
     if not np.all(P[:,4] == 0):
         P4_d = P[:,4].dot(H[:,3])
-        assert np.all(P[:,4] - P4_d*H[:,3] == 0)
+        assert np.allclose(P[:,4], P4_d*H[:,3])
         P[:,3] += P[:,4]
         P[:,4] = np.zeros(3)
             
     if not np.all(P[:,5] == 0):
         P5_d = P[:,5].dot(H[:,5])
-        assert np.all(P[:,5] - P5_d*H[:,5] == 0)
+        assert np.allclose(P[:,5], P5_d*H[:,5])
         P[:,6] += P[:,5]
         P[:,5] = np.zeros(3)       
     
-- 
2.43.0


From 80a2e8e6bfe276173e4faf68861e100b3398111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:24 +0000
Subject: [PATCH 26/36] fix: robot info loader accepted negative chain and
 joint numbers

---
 src/general_robotics_toolbox/robotraconteur.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 5554379..7d74f9b 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -87,17 +87,17 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
         robot_yml = yaml.safe_load(robot_info_file)
     _check_list(
         robot_yml["chains"], "could not find kinematic chain number " + str(chain_number))
-    if chain_number >= len(robot_yml["chains"]):
+    if chain_number < 0 or chain_number >= len(robot_yml["chains"]):
         raise ValueError("invalid kinematic chain number " + str(chain_number))
 
     chain = robot_yml["chains"][chain_number]
     joint_count = len(chain["joint_numbers"])
-    for i in range(1, joint_count):
-        if chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
+    for i in range(joint_count):
+        if i > 0 and chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
-        if chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
+        if chain["joint_numbers"][i] < 0 or chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
             raise ValueError(
                 "joint number out of bounds in chain number " + str(chain_number))
 
-- 
2.43.0


From 7ac0f1b6f901e2115fe23891ba56b50ba293e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:55 +0000
Subject: [PATCH 27/36] fix: URDF joints without axis element failed to load
 instead of using the default axis

---
 src/general_robotics_toolbox/urdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index b5fa7b3..bcf74c7 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -136,7 +136,8 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
         if j.joint_type == 'fixed':
             pass            
         elif j.joint_type == 'revolute' or j.joint_type == 'prismatic':            
-            H[:,i] = np.matmul(R,j.axis)
+            # URDF default axis is [1,0,0]
+            H[:,i] = np.matmul(R,j.axis if j.axis is not None else [1,0,0])
             joint_type[i] = 0 if j.joint_type == 'revolute' else 1
             if j.limit is not None:
                 joint_lower_limit[i] = j.limit.lower
-- 
2.43.0


From 2c4980b12c25477ff8bd19f1805d5a8a75ec9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:00 +0000
Subject: [PATCH 28/36] fix: Universal Robots Tesseract inverse kinematics
 found no solutions for robots with a tool

---
 src/general_robotics_toolbox/tesseract.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6725650..cc55c14 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -542,8 +542,9 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
                 robot_name + "_flange", opw_params)
         elif invkin_solver == "URInvKin":
             ur_params = robot_to_ur_inv_kin_parameters(robot)
+            # The UR parameters end at the flange, a tool may follow
             invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_ur_plugin_info_dict(robot_name, base_link,
-                tip_link, ur_params)
+                robot_name + "_flange", ur_params)
         else:
             assert False, "Unknown inverse kinematics solver"
 
-- 
2.43.0


From 0cd75f3311a162e1ebc8081bee0125597f185f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:00 +0000
Subject: [PATCH 29/36] fix: OPW Tesseract inverse kinematics found no
 solutions for robots outstretched along z

---
 src/general_robotics_toolbox/tesseract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index cc55c14..988502c 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -538,8 +538,11 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
                 base_link, tip_link, invkin_solver)
         elif invkin_solver == "OPWInvKin":
             opw_params = robot_to_opw_inv_kin_parameters(robot)
+            # The OPW tip frame has z along joint 6: this is the flange for a robot outstretched along x, and the end of
+            # the chain for a robot outstretched along z
+            opw_tip_link = robot_name + ("_chain_tip" if np.isclose(np.abs(robot.H[2,5]), 1.0) else "_flange")
             invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_opw_plugin_info_dict(robot_name, chain_link_names[0],
-                robot_name + "_flange", opw_params)
+                opw_tip_link, opw_params)
         elif invkin_solver == "URInvKin":
             ur_params = robot_to_ur_inv_kin_parameters(robot)
             # The UR parameters end at the flange, a tool may follow
-- 
2.43.0


From 3fadfea07df750165f9a53cbcd8de3be802403f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:47 +0000
Subject: [PATCH 30/36] fix: robot_to_ur_inv_kin_parameters refused +x aligned
 Universal Robots and accepted mirrored axes

---
 src/general_robotics_toolbox/tesseract.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 988502c..e5d4a4c 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -977,16 +977,22 @@ def robot_to_ur_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
+    minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+    plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
+
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
-    assert robot.T_base
-    assert np.allclose(robot.T_base.R, rox.rot([0,0,1], np.pi), atol=1e-6)
-    assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
+    if plus_x:
+        # URDF definition
+        assert np.allclose(robot.T_flange.R, np.array([-ex, ez, ey]).T, atol=1e-6)
+        assert robot.T_base is None or robot.T_base.isclose(rox.identity_transform())
+    else:
+        assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
 
-    minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-    plus_x = np.allclose(robot.H, -np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+        assert robot.T_base
+        assert np.allclose(robot.T_base.R, rox.rot([0,0,1], np.pi), atol=1e-6)
+        assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
 
     P2 = robot.P
 
-- 
2.43.0


From 0a6a2f5ace646552b207d131acd95877fedd37d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:08 +0000
Subject: [PATCH 31/36] fix: TesseractRobot.jacobian added the motion of a
 moving base link instead of subtracting it

---
 src/general_robotics_toolbox/tesseract.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index e5d4a4c..cfcdaec 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -895,6 +895,16 @@ class TesseractRobot:
         if link_name is None:
             link_name = self.tip_link_name
 
+        if kin_group.isActiveLinkName(base_link_name):
+            # Tesseract adds the motion of a moving base link instead of subtracting it
+            J_base = self.jacobian(theta, None, base_link_name)
+            J_link = self.jacobian(theta, None, link_name)
+            T_base = self.fwdkin(theta, self.base_link_name, base_link_name)
+            T_link = self.fwdkin(theta, self.base_link_name, link_name)
+            J_ang = J_link[0:3,:] - J_base[0:3,:]
+            J_lin = J_link[3:6,:] - J_base[3:6,:] + np.matmul(rox.hat(T_link.p - T_base.p), J_base[0:3,:])
+            return np.vstack((np.matmul(T_base.R.T, J_ang), np.matmul(T_base.R.T, J_lin)))
+
         J_kdl =  kin_group.calcJacobian(theta, base_link_name, link_name)
 
         # KDL has vel on top, SOA has ang on top
-- 
2.43.0


From 47c352fe4ef5fa485addae0bbea0f0fe54dcf794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 32/36] fix: OPW and UR inverse kinematics parameters were
 derived for robots with prismatic joints

---
 src/general_robotics_toolbox/tesseract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index cfcdaec..e0f92af 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -643,6 +643,7 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert len(robot.joint_type) == 6
+    assert np.all(np.asarray(robot.joint_type) == 0), "OPW robots have revolute joints only"
 
     def axis_sign(_h, _e):
         if np.allclose(_h, _e):
@@ -987,6 +988,8 @@ def robot_to_ur_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
+    assert np.all(np.asarray(robot.joint_type) == 0), "Universal Robots have revolute joints only"
+
     minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
     plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
 
-- 
2.43.0


From 77665cc8eb356124ddae496ba65d6496230aae27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:28 +0000
Subject: [PATCH 33/36] fix: robot_to_ur_inv_kin_parameters ignored the flange
 offset beyond joint 6

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index e0f92af..7b7d0a1 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -1027,7 +1027,7 @@ def robot_to_ur_inv_kin_parameters(robot):
     d5 = -np.sum(P2[2,4:5]).item()
     assert np.allclose(P2[2,5:], 0.0)
     assert np.allclose(P2[0,5:], 0.0)
-    d6 = -np.sum(P2[1,5:6]).item()
+    d6 = -np.sum(P2[1,5:7]).item()
 
     ret = URInvKinParameters(d1,a2,a3,d4,d5,d6)
 
-- 
2.43.0


From ef6281e3c8399acad495f102091848d4f898609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:47 +0000
Subject: [PATCH 34/36] fix: iterative_invkin reported convergence for
 orientation errors up to 1e-6 rad whatever the tolerance

---
 .../general_robotics_toolbox_invkin.py                     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 4963c94..acfcdd2 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -459,13 +459,14 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         
         EP = np.matmul(R_cur.T,(p_cur - p_d))
         
-        #decompose ER to (k,theta) pair
-        k, theta = rox.R2rot(ER)                  
+        #convert ER to a quaternion, vector part is sin(theta/2)*k for theta in [-pi,pi]
+        #(R2rot can not be used, it returns zero for small rotations)
+        q_ER = rox.R2q(ER)
         
         ## set up s for different norm for ER
         # s=2*np.dot(k,np.sin(theta)) #eR1
         # s = np.dot(k,np.sin(theta/2))         #eR2
-        s = np.sin(theta/2) * np.array(k)         #eR2
+        s = np.copysign(1.0, q_ER[0]) * q_ER[1:4]         #eR2
         # s=2*theta*k              #eR3
 
         vd = np.matmul(Kp, EP)
-- 
2.43.0


From 274a650270c7cf5f1a21a9656bd1b0fb0e10eace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:17 +0000
Subject: [PATCH 35/36] fix: URDF inertias of rigidly connected links were
 dropped or added without moving them to a common frame

---
 src/general_robotics_toolbox/urdf.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index bcf74c7..cb1e8e6 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -124,15 +124,20 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
     
     R=np.identity(3)
     
+    # Pose of the current link in the first link of its rigid body
+    R_b=np.identity(3)
+    p_b=np.zeros((3,))
+    
     for c in chain:
         j = urdf_robot.joint_map[c]
+        M[i] = _append_inertia(M[i], _convert_inertial(urdf_robot.link_map[j.parent].inertial,R_b,p_b))
         if j.origin is not None:
             if j.origin.xyz is not None:
                 P[:,i] += np.matmul(R,j.origin.xyz)
+                p_b = p_b + np.matmul(R_b,j.origin.xyz)
             if j.origin.rpy is not None:
                 R = np.matmul(R,_rpy_to_rot(j.origin.rpy))
-        if urdf_robot.link_map[j.child].inertial is not None:
-            M[i] = _append_inertia(M[i], _convert_inertial(urdf_robot.link_map[j.parent].inertial,R))
+                R_b = np.matmul(R_b,_rpy_to_rot(j.origin.rpy))
         if j.joint_type == 'fixed':
             pass            
         elif j.joint_type == 'revolute' or j.joint_type == 'prismatic':            
@@ -146,10 +151,12 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
                 joint_effort_limit[i] = j.limit.effort
             joint_names[i] = j.name
             i += 1            
+            R_b=np.identity(3)
+            p_b=np.zeros((3,))
         else:        
             assert False, "Only revolute, prismatic, fixed, and floating joints supported"
     
-    M[-1] = _append_inertia(M[-1],_convert_inertial(urdf_robot.link_map[j.child].inertial,R))
+    M[-1] = _append_inertia(M[-1],_convert_inertial(urdf_robot.link_map[j.child].inertial,R_b,p_b))
 
     if None in joint_lower_limit or None in joint_upper_limit:
         joint_lower_limit = None
@@ -184,7 +191,7 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
     
     return robot
 
-def _convert_inertial(urdf_inertial, R):
+def _convert_inertial(urdf_inertial, R, p):
     if urdf_inertial is None:
         return None
 
@@ -209,6 +216,10 @@ def _convert_inertial(urdf_inertial, R):
                       [inr.ixy, inr.iyy, inr.iyz],
                       [inr.ixz, inr.iyz, inr.izz]])
 
+    # Express in the first link of the rigid body
+    p_com = p + np.matmul(R,p_com)
+    R_com = np.matmul(R,R_com)
+
     # Rotate inertia matrix
     I = np.matmul(np.matmul(R_com,I),R_com.transpose())
     # Translate inertia matrix (parallel axis theorem)
-- 
2.43.0


From ce4fbfcfb68662906279f8b6934fd1d522c783df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:09 +0000
Subject: [PATCH 36/36] fix: read URDF files in the encoding they declare, not
 the encoding of the locale

---
 src/general_robotics_toolbox/urdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index cb1e8e6..3309251 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -51,7 +51,8 @@ def _load_xacro_to_string(fname, package = None):
 
 def _load_xml_to_string(fname, package = None):
     fname2 = _resolve_file(fname,package)
-    with open(fname2, 'r') as f:
+    # Leave the decoding to the XML parser, which knows the encoding of the file
+    with open(fname2, 'rb') as f:
         return f.read()
 
 def _rpy_to_rot(rpy):
-- 
2.43.0

