From a13206cbef0727df1d65d1741acc0cdd97f3f718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:02 +0000
Subject: [PATCH 1/5] fix: initiate() must not construct a second outermost
 state

When initiate() is called on a running machine, the implicit terminate()
can return with the machine still running: an exit function throws and the
resulting exception event is handled with a transition. The initial state
was then constructed next to the still active outermost state, leading to
failed assertions, leaked states and two active outermost states.
---
 include/boost/statechart/state_machine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/boost/statechart/state_machine.hpp b/include/boost/statechart/state_machine.hpp
index 25afad5..c669ba9 100644
--- a/include/boost/statechart/state_machine.hpp
+++ b/include/boost/statechart/state_machine.hpp
@@ -244,6 +244,10 @@ class state_machine : noncopyable
     void initiate()
     {
       terminate();
+      // If an exception thrown by an exit function was handled with a
+      // transition then the machine is still running. The states that are
+      // still active must be gone before the initial state is constructed.
+      terminate_impl( false );
 
       {
         terminator guard( *this, 0 );
-- 
2.43.0


From dae7888d59b51a91eaeb3f046c6c155b1490c401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 2/5] fix: context<>() const can name the state itself

simple_state<>::context< MostDerived >() const did not compile because the
downcast dropped the const qualifier.
---
 include/boost/statechart/simple_state.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index eb1d438..56ec648 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -692,6 +692,12 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       {
         return *polymorphic_downcast< MostDerived * >( &stt );
       }
+
+      template< class OtherContext, class State >
+      static const OtherContext & context_impl( const State & stt )
+      {
+        return *polymorphic_downcast< const MostDerived * >( &stt );
+      }
     };
     friend struct context_impl_this_context;
 
-- 
2.43.0


From 8c397216ffb69c703032804f6bcb51c242ff135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:44 +0000
Subject: [PATCH 3/5] fix: relaxed transition action may be a member of the
 source state

With BOOST_STATECHART_RELAX_TRANSITION_CONTEXT the transition action is
documented to be a member of the transition source or any outer context,
but naming the source itself did not compile: context_ptr<>() cannot be
instantiated for the state itself.
---
 include/boost/statechart/simple_state.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index 56ec648..d96c577 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -774,7 +774,7 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
       else
       {
         typename real_transition_context_type::inner_context_ptr_type
-          pTransitionContext = context_ptr< real_transition_context_type >();
+          pTransitionContext = &context< real_transition_context_type >();
         outermostContextBase.terminate_as_part_of_transit(
           *pTransitionContext );
         transitionAction( *pTransitionContext );
-- 
2.43.0


From 30c8410ef8d7a8d2fce8233bb9699b1827e99241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:59 +0000
Subject: [PATCH 4/5] fix: a processor whose constructor throws must not stay
 registered

create_processor_implN() put the still empty holder into the processor
set before running the constructor. When the constructor threw, the empty
holder stayed behind and later work items for that processor (initiate,
queue_event, terminate) dereferenced a null pointer.
---
 include/boost/statechart/processor_container.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/statechart/processor_container.hpp b/include/boost/statechart/processor_container.hpp
index fc61656..27ef3b4 100644
--- a/include/boost/statechart/processor_container.hpp
+++ b/include/boost/statechart/processor_container.hpp
@@ -311,8 +311,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1 >
@@ -320,8 +320,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2 >
@@ -329,8 +329,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template< class Processor, typename Arg1, typename Arg2, typename Arg3 >
@@ -338,8 +338,8 @@ class processor_container : noncopyable
       const processor_holder_ptr_type & pProcessor,
       const processor_context & context, Arg1 arg1, Arg2 arg2, Arg3 arg3 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -350,8 +350,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -362,8 +362,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5 ) );
+      processorSet_.insert( pProcessor );
     }
 
     template<
@@ -374,8 +374,8 @@ class processor_container : noncopyable
       const processor_context & context,
       Arg1 arg1, Arg2 arg2, Arg3 arg3, Arg4 arg4, Arg5 arg5, Arg6 arg6 )
     {
-      processorSet_.insert( pProcessor );
       *pProcessor = processor_holder_type( new Processor( context, arg1, arg2, arg3, arg4, arg5, arg6 ) );
+      processorSet_.insert( pProcessor );
     }
 
     void destroy_processor_impl( const processor_handle & processor )
-- 
2.43.0


From c3db394e6d1c51f4b73217c86f8a76975a00d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:05 +0000
Subject: [PATCH 5/5] fix: reject an inner state listed as initial for two
 regions

The check in deep_construct_inner_impl() compares a state with the entry of
its outer state's inner initial list at its own orthogonal position, so that
mpl::list< S, S > passed: two active S objects in one machine.
---
 include/boost/statechart/simple_state.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/statechart/simple_state.hpp b/include/boost/statechart/simple_state.hpp
index d96c577..805a5c8 100644
--- a/include/boost/statechart/simple_state.hpp
+++ b/include/boost/statechart/simple_state.hpp
@@ -27,6 +27,7 @@
 #include <boost/mpl/find.hpp>
 #include <boost/mpl/find_if.hpp>
 #include <boost/mpl/contains.hpp>
+#include <boost/mpl/count.hpp>
 #include <boost/mpl/distance.hpp>
 #include <boost/mpl/deref.hpp>
 #include <boost/mpl/pop_front.hpp>
@@ -896,6 +897,11 @@ class simple_state : public detail::simple_state_base_type< MostDerived,
             typename current_inner::context_type::inner_initial_list,
             typename current_inner::orthogonal_position >::type >::value ) );
 
+        // The check above does not see a state listed once too often
+        BOOST_STATIC_ASSERT( ( mpl::count<
+          typename current_inner::context_type::inner_initial_list,
+          current_inner >::value == 1 ) );
+
         current_inner::deep_construct( pInnerContext, outermostContextBase );
         deep_construct_inner< typename mpl::pop_front< InnerList >::type >(
           pInnerContext, outermostContextBase );
-- 
2.43.0

