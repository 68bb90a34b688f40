From 046ee565a49087d401c808725223eed0ac8d43d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 01/25] fix: evaluate right hand side of field assignment
 before accessing the tuple

A field assignment like t.re:=(s:=t;5) took a reference to the field before
evaluating its right hand side, so that a copy of the tuple made by the latter
was modified as well, and an assignment to the variable by the latter left the
reference dangling.
---
 sources/interpreter/axis.w | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index 79499ad..0d5d9e4 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -8523,8 +8523,8 @@ void component_assignment<reversed>::assign
 }
 @)
 void field_assignment::assign (level lev,shared_value& tupple) const
-{ shared_value& field=uniquify<tuple_value>(tupple)->val[position];
-  rhs->eval();
+{ rhs->eval(); // must precede taking a reference: it might alter or share |tupple|
+  shared_value& field=uniquify<tuple_value>(tupple)->val[position];
   push_expanded(lev,field=pop_value());
 }
 
-- 
2.43.0


From 6f34673c43e11e8f0f539ef703bab11000e11fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:21 +0000
Subject: [PATCH 02/25] fix: keep component or field intact when a compound
 assignment to it fails

An error in for instance r[i]%:=0 left a null pointer as component of the row
(or as field of the tuple), and any subsequent access to it crashed the program.
---
 sources/interpreter/axis.w | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index 0d5d9e4..46f2ef9 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -8549,11 +8549,11 @@ possibly expanding a tuple in the process.
 @ The |transform| method of |component_transform| is similar to the |assign|
 methods above. However, instead of assigning the evaluation of |rhs| into the
 aggregate, it combines it with the previous value of the destination component
-using |f_ptr| (which is a |shared_builtin|). Since the first operand of |f_ptr|,
-which is the old value of the row component |ai|, is moved out of the row to the
-stack, we make sure to evaluate the second operand before it, so that during its
-evaluation the row |a| is still intact. This requires temporarily moving that
-second argument off the stack before moving it back on. (The expression for that
+using |f_ptr| (which is a |shared_builtin|). The first operand of |f_ptr|, which is
+the old value of the row component |ai|, is not moved out of the row, since if
+|f_ptr| throws the row must remain intact. We evaluate the second operand before
+accessing the row, which requires temporarily moving that second argument off
+the stack before moving it back on. (The expression for that
 operand is called |rhs|, in the |assignment| class we inherit from.) The code
 takes into account the possibility of an absent second argument, indicated by
 the condition |rhs=nullptr|; this is because an optimisation may have replaced a
@@ -8577,7 +8577,7 @@ void component_transform<reversed>::transform
   if (static_cast<size_t>(i) >= n)
     throw runtime_error(range_mess(i,a.size(),this,"component assignment"));
   auto& ai = a[reversed ? n-1-i : i];
-  push_value(std::move(ai)); // move-push component before transformation
+  push_value(ai); // push component, leaving |a| intact in case |*f_ptr| throws
   if (op2!=nullptr)
     push_value(std::move(op2)); // and possibly additional argument
   @< Call |*f_ptr| to produce a single value, taking measures for back tracing @>
@@ -8588,7 +8588,7 @@ void field_transform::transform (level lev,shared_value& tupple) const
 { auto op2 = (rhs==nullptr ? nullptr : (rhs->eval(),pop_value()));
    // put aside additional operand
   shared_value& field=uniquify<tuple_value>(tupple)->val[position];
-  push_value(std::move(field)); // move-push field before transformation
+  push_value(field); // push field, leaving it intact in case |*f_ptr| throws
   if (op2!=nullptr)
     push_value(std::move(op2)); // and possibly additional argument
   @< Call |*f_ptr| to produce a single value, taking measures for back tracing @>
-- 
2.43.0


From f82117da67c7fe5895c3595ef7d243a6791846f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:38 +0000
Subject: [PATCH 03/25] fix: do not crash on a local variable left empty by a
 failed assignment

After an error in an assignment like n:=n\0 (which empties n while computing) to
a local variable held by a closure, the next call of that closure dereferenced a
null pointer. Report an error, as is done for global variables.
---
 sources/interpreter/axis.w | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index 46f2ef9..6f0b7cb 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -1597,11 +1597,16 @@ template<>
 
 template<bool pilfer>
   void local_identifier<pilfer>::evaluate(level l) const
-{
+{ shared_value& val = frame::current->elem(depth,offset);
+  if (val==nullptr) // can happen after an error while the variable was emptied
+  { std::ostringstream o;
+    o << "Taking value of uninitialized variable '" << name() << '\'';
+    throw runtime_error(o.str());
+  }
   if (pilfer)
-    push_expanded(l,std::move(frame::current->elem(depth,offset)));
+    push_expanded(l,std::move(val));
   else
-    push_expanded(l,frame::current->elem(depth,offset));
+    push_expanded(l,val);
 }
 
 @*1 Type-checking applied identifiers.
@@ -8461,21 +8466,32 @@ local_field_transform::local_field_transform @|
 then |assign| or |transform| does its job.
 
 @< Function def... @>=
+shared_value& checked_elem(size_t depth, size_t offset, id_type id)
+{ shared_value& val = frame::current->elem(depth,offset);
+  if (val==nullptr) // can happen after an error while the variable was emptied
+  { std::ostringstream o;
+    o << "Assigning to part of uninitialized variable " @|
+      << main_hash_table->name_of(id);
+    throw runtime_error(o.str());
+  }
+  return val;
+}
+@)
 template <bool reversed>
 void local_component_assignment<reversed>::evaluate(eval_level l)
   const
-{@; base::assign (l,frame::current->elem(depth,offset),kind); }
+{@; base::assign (l,checked_elem(depth,offset,this->lhs),kind); }
 @)
 template <bool reversed>
 void local_component_transform<reversed>::evaluate(eval_level l)
   const
-{@; base::transform (l,frame::current->elem(depth,offset)); }
+{@; base::transform (l,checked_elem(depth,offset,this->lhs)); }
 @)
 void local_field_assignment::evaluate(eval_level l) const
-{@; assign (l,frame::current->elem(depth,offset)); }
+{@; assign (l,checked_elem(depth,offset,lhs)); }
 @)
 void local_field_transform::evaluate(eval_level l) const
-{@; transform (l,frame::current->elem(depth,offset)); }
+{@; transform (l,checked_elem(depth,offset,lhs)); }
 
 @ The |assign| method, which will also be called for local component
 assignments, starts by the common work of evaluating the (component) value to be
-- 
2.43.0


From 0443ec8dac3aa77cf3ae6d987a26cd5b7ca8f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:55 +0000
Subject: [PATCH 04/25] fix: allow negative exponents in powers of rational
 numbers

The power function handles negative exponents, but the wrapper tried to convert
the exponent to an unsigned value, so that (2/3)^-1 reported an error.
---
 sources/interpreter/global.w | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/interpreter/global.w b/sources/interpreter/global.w
index e3d25bc..29ca6ef 100644
--- a/sources/interpreter/global.w
+++ b/sources/interpreter/global.w
@@ -3630,7 +3630,7 @@ void rat_power_wrapper(eval_level l)
   else if (b->val.is_zero())
     push_value (exponent->val.is_zero() ? one : b);
   else push_value
-      (std::make_shared<rat_value>(b->val.power(exponent->val.uint_val())));
+      (std::make_shared<rat_value>(b->val.power(exponent->val.int_val())));
 }
 
 @ We want to transform user expressions of the for $1/d$ into $/d$ (the rational
-- 
2.43.0


From f4d6aeccecaaa0983416c05c8c7dbfc2cef32025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 05/25] fix: borrow propagation in big integer subtraction

When a shorter negative number is diminished by a number at least two digits
longer, borrow was propagated past digits that became 0 rather than past those
that became -1; for instance -83-3*2^64 gave a wrong value.
---
 sources/utilities/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/utilities/bigint.cpp b/sources/utilities/bigint.cpp
index ca8a916..7c56539 100644
--- a/sources/utilities/bigint.cpp
+++ b/sources/utilities/bigint.cpp
@@ -306,7 +306,7 @@ void big_int::sub_from (const big_int& x)
     { bool borrow = (*it=~*it+s)>=s;
       for (++it ; it != d.end()-1; ++it)
       { *it = ~ *it - static_cast<digit>(borrow);
-	borrow = borrow and (*it)==0;
+	borrow = borrow and ~ *it==0; // propagate |borrow| only for 0->-1
       }
       *it = ~ *it - static_cast<digit>(borrow);
       if (borrow and *it== ~neg_flag)
-- 
2.43.0


From 76be9747e5356f22e232fc59e78fda253d746944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 06/25] fix: quotient and remainder for negative multi-digit
 divisors

The quick test for |dividend|<|divisor| rounded the leading digit of a negative
divisor upwards, so for a dividend just above the absolute value of the divisor
the remainder returned could have the wrong sign, for instance for
0x7b6df7c82496d86a \% -0x7b6df7c82496d869.
---
 sources/utilities/bigint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/utilities/bigint.cpp b/sources/utilities/bigint.cpp
index 7c56539..8a2aaa8 100644
--- a/sources/utilities/bigint.cpp
+++ b/sources/utilities/bigint.cpp
@@ -555,7 +555,7 @@ big_int big_int::reduce_mod (const big_int& divisor)
   if (size()<=divisor.size() and // test easy cases with quotient $0$ or $-1$
       (size()<divisor.size() or // else compare leading absolute values
        (is_negative() ? -d.back() : d.back()) < // conservatively
-       (neg_div ? -divisor.d.back(): divisor.d.back())
+       (neg_div ? ~divisor.d.back(): divisor.d.back()) // here round downwards
      ))
     if (is_negative()==neg_div or is_zero())
       return big_int{0}; // then |*this| is valid remainder for |div|
-- 
2.43.0


From 0c839b954701878a27dd385a9b5c717ce450c898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:04 +0000
Subject: [PATCH 07/25] fix: do not leave the value of a voided slice on the
 execution stack

---
 sources/interpreter/axis.w | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index 6f0b7cb..b81ff36 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -4824,6 +4824,8 @@ void row_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or upb>=0 and static_cast<size_t>(upb)>n)
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return; // range was checked, but no value is called for
   if (lwb>=upb)
   {@; push_value(std::make_shared<row_value>(0)); return; }
   push_value( (flags&0x1)==0
@@ -4848,6 +4850,8 @@ void vector_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or (upb>=0 and static_cast<size_t>(upb)>n))
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return; // range was checked, but no value is called for
   if (lwb>=upb)
   {@; push_value(std::make_shared<vector_value>(int_Vector(0))); return; }
   push_value( (flags&0x1)==0
@@ -4875,6 +4879,8 @@ void ratvec_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or (upb>=0 and static_cast<size_t>(upb)>n))
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return; // range was checked, but no value is called for
   if (lwb>=upb)
   @/{@; push_value(std::make_shared<rational_vector_value>(RatWeight(0)));
       return;
@@ -4903,6 +4909,8 @@ void string_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or (upb>=0 and static_cast<size_t>(upb)>n))
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return; // range was checked, but no value is called for
   if (lwb>=upb)
   {@; push_value(std::make_shared<string_value>(std::string())); return; }
   push_value
@@ -4931,6 +4939,8 @@ void matrix_slice<flags>::evaluate(level l) const
     upb = n - upb;
   if (lwb<0 or (upb>=0 and static_cast<size_t>(upb)>n))
     slice_range_error(lwb,upb,n,flags,this);
+  if (l==level::no_value)
+    return; // range was checked, but no value is called for
   if (lwb>=upb)
 @/{@; push_value(std::make_shared<matrix_value>(int_Matrix(m.n_rows(),0)));
       return; }
-- 
2.43.0


From 28002c7fbc46dcf4f7d0d2f29f75df4018cc3eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:55 +0000
Subject: [PATCH 08/25] fix: do not leave the value of a voided injector call
 on the execution stack

---
 sources/interpreter/axis.w | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index b81ff36..9778ab6 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -5099,12 +5099,14 @@ void injector_value::report_origin(std::ostream& o) const
  {@; o << "injector defined " << loc; }
 
 @ Applying an injector is quite easy: we pop the value from the stack, attach
-the proper tag (number), and then push that to the stack again.
+the proper tag (number), and then push that to the stack again; if no value is
+wanted we must not push anything.
 
 @< Function def... @>=
 void injector_value::apply(eval_level l) const
 { shared_value component = pop_value();
-  push_value(std::make_shared<union_value>(position,std::move(component),id));
+  if (l!=eval_level::no_value)
+    push_value(std::make_shared<union_value>(position,std::move(component),id));
 }
 
 @ Like for projectors, injectors are usually applied in special call
@@ -5143,7 +5145,9 @@ contribute to an error back-trace.
 void injector_call::evaluate(level l) const
 {
   argument->eval(); // evaluate arguments as a single value
-  push_value(std::make_shared<union_value>(position,pop_value(),id));
+  shared_value component = pop_value();
+  if (l!=level::no_value)
+    push_value(std::make_shared<union_value>(position,std::move(component),id));
 }
 @)
 void injector_call::print(std::ostream& out) const
-- 
2.43.0


From 8ecb851fdb7b427a62208dcb90e0e634d0d69643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:05 +0000
Subject: [PATCH 09/25] fix: do not leave the value of a voided
 is_Cartan_matrix call on the execution stack

---
 sources/interpreter/atlas-types.w | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/interpreter/atlas-types.w b/sources/interpreter/atlas-types.w
index d24d3d2..6f04798 100644
--- a/sources/interpreter/atlas-types.w
+++ b/sources/interpreter/atlas-types.w
@@ -371,11 +371,13 @@ void is_Cartan_matrix_wrapper (eval_level l)
   try
   {
     dynkin::Lie_type(m->val); // this may |throw| an |error::Cartan_error|
-    push_value(whether(true));
+    if (l!=eval_level::no_value)
+      push_value(whether(true));
   }
   catch (error::Cartan_error&)
   {
-    push_value(whether(false));
+    if (l!=eval_level::no_value)
+      push_value(whether(false));
   }
 }
 
-- 
2.43.0


From 69220ad79ef22d6bafee38910fc5543434b7cb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:43 +0000
Subject: [PATCH 10/25] fix: clear execution stack of operands abandoned by
 break or return

A value kept on the execution stack by 'next', by a component assignment or
by a recursive call while another expression is evaluated was left there when
that expression executed a break or return, and was then taken as operand of
an enclosing operation.
---
 sources/interpreter/axis.w | 48 ++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/sources/interpreter/axis.w b/sources/interpreter/axis.w
index 9778ab6..32e19e1 100644
--- a/sources/interpreter/axis.w
+++ b/sources/interpreter/axis.w
@@ -2710,13 +2710,14 @@ void call_expression::evaluate(level l) const
   if (f==nullptr)
     throw logic_error
       ("Non-function value found for function in a call expression");
+  const auto sp = execution_stack.size();
   f->maybe_push(f); // provide shared pointer to self for recursive functions
+  auto arg_sp = execution_stack.size(); // where arguments will start
+  try {@; argument->evaluate(f->argument_policy()); }
+  @< Catch block removing values left above |sp| by |break| or |return| @>
   std::string arg_string;
-  if (verbosity==0)
-    argument->evaluate(f->argument_policy());
-  else
-  { auto sp = execution_stack.size();
-    argument->evaluate(f->argument_policy());
+  if (verbosity>0)
+  { auto sp = arg_sp;
     std::ostringstream o;
     if (execution_stack.size()>sp+1) // multiple arguments
       for (o << '(';
@@ -4031,9 +4032,11 @@ a fourth textual reuse of the |catch| block for function calls, as well as
 template<Closure_kind kind>
 void closure_call<kind>::evaluate(level l) const
 { static const bool no_names=kind==parameterless;
+  const auto sp = execution_stack.size();
   if (kind==recursive_closure)
     push_value(f); // duplicate our closure to the execution stack
-  argument->eval(); // evaluate arguments as a single value
+  try {@; argument->eval(); } // evaluate arguments as a single value
+  @< Catch block removing values left above |sp| by |break| or |return| @>
   std::string arg_string;
   if (verbosity!=0) // then record argument(s) as string
   {@; std::ostringstream o;
@@ -4181,11 +4184,32 @@ void seq_expression::evaluate(level l) const
 retained as result. This is one occasion where a value pushed to the
 |execution_stack| may remain there for some time (during all of
 |last->void_eval();|); the other one is when |tuple_display::evaluate| is
-called with a |l==multi_value| argument).
+called with a |l==multi_value| argument). As there, we must remove that value
+if a \&{break} or \&{return} abandons the evaluation of |last|.
 
 @< Function def... @>=
 void next_expression::evaluate(level l) const
-{@; first->evaluate(l); last->void_eval(); }
+{ const auto sp = execution_stack.size();
+  first->evaluate(l);
+  try {@; last->void_eval(); }
+  @< Catch block removing values left above |sp| by |break| or |return| @>
+}
+
+@ Whenever values stay on the |execution_stack| while some expression is being
+evaluated, a \&{break} or \&{return} from within that expression would leave
+them there, and they would then be mistaken for operands that were pushed
+earlier. The following |catch| block avoids that; it uses a variable |sp| that
+holds the size |execution_stack| had before those values were pushed.
+
+@< Catch block removing values left above |sp| by |break| or |return| @>=
+catch (const loop_break&)
+{@; execution_stack.resize(sp);
+  throw;
+}
+catch (const function_return&)
+{@; execution_stack.resize(sp);
+  throw;
+}
 
 @ It remains to type-check and convert sequence expressions, which is easy.
 
@@ -8526,8 +8550,10 @@ and the code is quite simple.
 template <bool reversed>
 void component_assignment<reversed>::assign
   (level lev,shared_value& aggregate, subscr_base::sub_type kind) const
-{ rhs->eval();
-  switch (kind)
+{ const auto sp = execution_stack.size();
+  rhs->eval(); // this value remains on the stack while |index| is evaluated
+  try
+  { switch (kind)
   { case subscr_base::row_entry:
   @/@< Replace component at |index| in row |loc| by value on stack @>
   @+break;
@@ -8550,6 +8576,8 @@ void component_assignment<reversed>::assign
   @+break;
   default: {} // remaining cases are eliminated in type analysis
   }
+  }
+  @< Catch block removing values left above |sp| by |break| or |return| @>
 }
 @)
 void field_assignment::assign (level lev,shared_value& tupple) const
-- 
2.43.0


From e71ecda81a02a124efa7b1d0a3ce9f1c37012fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:58 +0000
Subject: [PATCH 11/25] fix: use the generator subset when making weights
 dominant for a Weyl subgroup

---
 sources/structure/rootdata.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/structure/rootdata.h b/sources/structure/rootdata.h
index b358291..6f629bd 100644
--- a/sources/structure/rootdata.h
+++ b/sources/structure/rootdata.h
@@ -667,7 +667,7 @@ public:
     GenWord to_dominant(Gens g, matrix::Vector<C> lambda) const;
   template<typename C>
     matrix::Vector<C>& make_dominant(Gens g, matrix::Vector<C>& lambda) const
-      { factor_dominant(lambda); return lambda; }
+      { factor_dominant(g,lambda); return lambda; }
 
   // make |lambda| codominant, and return Weyl word that will convert it back
   template<typename C>
@@ -676,7 +676,7 @@ public:
     GenWord to_codominant (Gens g, matrix::Vector<C> lambda) const;
   template<typename C>
     matrix::Vector<C>& make_codominant(Gens g, matrix::Vector<C>& lambda) const
-      { factor_codominant(lambda); return lambda; }
+      { factor_codominant(g,lambda); return lambda; }
 
   template<typename C>
     void act(const WeylWord& ww, matrix::Vector<C>& lambda) const
-- 
2.43.0


From a17e20bd755d46e44b9f9931cf49517ae08c9a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 12/25] fix: columns skipped for height bound in KL computation
 do not count as computed

KL_table::plug_hole removed the column from the set of holes, so that
has_KL_Q_column reported columns never computed as present, after which
stored_KL_Q_polynomials returned wrong values or crashed.
---
 sources/gkmod/kl.cpp | 10 ++++++----
 sources/gkmod/kl.h   |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/sources/gkmod/kl.cpp b/sources/gkmod/kl.cpp
index a990bd8..01ecf8c 100644
--- a/sources/gkmod/kl.cpp
+++ b/sources/gkmod/kl.cpp
@@ -94,6 +94,7 @@ namespace kl {
 KL_table::KL_table(const Block_base& b, KL_hash_Table* pol_hash)
   : klsupport::KLSupport(b) // construct unfilled support object from block
   , d_holes(b.size()) // start with ambition to fill everything
+  , d_plugged(b.size()) // and no exceptions to that
   , d_KL(b.size()) // create empty slots for whole block; doesn't cost much
   , d_mu(b.size())
   , pol_hash(pol_hash)
@@ -181,13 +182,12 @@ Poly_hash_export KL_table::polynomial_hash_table ()
 
 void KL_table::plug_hole(BlockElt y)
 { assert(y<d_holes.capacity());
-  d_holes.remove(y);
+  d_plugged.insert(y); // but an uncomputed column remains among |d_holes|
 }
 
 void KL_table::unplug_hole(BlockElt y)
 { assert(y<d_holes.capacity());
-  if (d_KL[y].size()==0) // action is only needed for not yet computed columns
-    d_holes.insert(y);
+  d_plugged.remove(y);
 }
 
 // Fill (or extend) the KL- and mu-lists up to |limit|
@@ -858,6 +858,8 @@ void KL_table::silent_fill(BlockElt limit)
     // fill the lists
     for (auto it = d_holes.begin(); it() and *it<limit; ++it)
     {
+      if (d_plugged.isMember(*it))
+	continue; // leave this column as a hole
       interpreter::check_interrupt();
       fill_KL_column(klv,*it,hash);
       d_holes.remove(*it);
@@ -900,7 +902,7 @@ void KL_table::verbose_fill(BlockElt limit)
       BlockElt y_start = l==minLength ? first_hole() : length_less(l);
       BlockElt y_limit = l<maxLength ? length_less(l+1) : limit;
       for (BlockElt y=y_start; y<y_limit; ++y)
-	if (d_holes.isMember(y))
+	if (d_holes.isMember(y) and not d_plugged.isMember(y))
 	{
 	  std::cerr << y << "\r";
 
diff --git a/sources/gkmod/kl.h b/sources/gkmod/kl.h
index 5cd4a98..fe151d2 100644
--- a/sources/gkmod/kl.h
+++ b/sources/gkmod/kl.h
@@ -69,7 +69,8 @@ class KL_table
   : public klsupport::KLSupport // base is needed for full functionality
 {
 
-  BitMap d_holes; // columns to fill; its |capacity| limits ambition to do so
+  BitMap d_holes; // columns not filled; its |capacity| limits ambition to do so
+  BitMap d_plugged; // columns that |fill| should ignore, filled or not
 
 // Entry |d_KL[y]| is a vector of |KLIndex|es for |P(x,y)| with |x| primitive
   std::vector<KL_column> d_KL;
-- 
2.43.0


From ac2c82fec4d380bd176c95eba5a1a401d6fee2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:39 +0000
Subject: [PATCH 13/25] fix: K_type_formula accepts an empty formula

When no term of the formula is within the height bound, the last term of an
empty polynomial was consulted.
---
 sources/interpreter/atlas-types.w | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/interpreter/atlas-types.w b/sources/interpreter/atlas-types.w
index 6f04798..d7239bf 100644
--- a/sources/interpreter/atlas-types.w
+++ b/sources/interpreter/atlas-types.w
@@ -6246,7 +6246,8 @@ void K_type_formula_memo_wrapper(eval_level l)
   const auto& formula = rt.K_type_formula(srk,h); // might have excess terms
   auto cut = formula.end();
   auto n = formula.size();
-  if (formula.rbegin()->first.height()>h) // do we need to truncate?
+  if (not formula.is_zero() and
+      formula.rbegin()->first.height()>h) // do we need to truncate?
   { cut = formula.begin(); n=0;
     while (cut->first.height()<=h)
       ++cut,++n;
-- 
2.43.0


From 1df7d77d1601a1c1a708652f296aa4361aee2ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 14/25] fix: BitMap::operator>>= shifts the last word down

---
 sources/utilities/bitmap.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/utilities/bitmap.cpp b/sources/utilities/bitmap.cpp
index 576174b..951e6f9 100644
--- a/sources/utilities/bitmap.cpp
+++ b/sources/utilities/bitmap.cpp
@@ -465,7 +465,7 @@ BitMap& BitMap::operator>>= (unsigned long delta) // decrease values by |delta|
       *it >>= delta_rem; // shift bits doan
       *it |= *(it+1) << (constants::longBits-delta_rem);
     }
-    *it <<= delta_rem; // shift last bits down
+    *it >>= delta_rem; // shift last bits down
   }
   return *this;
 }
-- 
2.43.0


From f6777b1f3c23769cbcbbcd6d78732aafddbf46ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 15/25] fix: BitSetBase<2>::fill keeps the bits already set

---
 sources/utilities/bitset.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/utilities/bitset.cpp b/sources/utilities/bitset.cpp
index d3f5fcd..3b7fc77 100644
--- a/sources/utilities/bitset.cpp
+++ b/sources/utilities/bitset.cpp
@@ -195,11 +195,11 @@ void BitSetBase<2>::set(unsigned int j)
 void BitSetBase<2>::fill(unsigned int limit)
 {
   if (limit <= 32)
-    d_bits0 = constants::lt_mask[limit];
+    d_bits0 |= constants::lt_mask[limit];
   else if (limit <= 64)
   {
     d_bits0 = ~0x0u; // set all bits here
-    d_bits1 = constants::lt_mask[limit - 32];
+    d_bits1 |= constants::lt_mask[limit - 32];
   }
   else
     assert("limit out out range" and false);
-- 
2.43.0


From d5616999270ff12e2eb6e2c50392e08c6170cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 16/25] fix: BitSetBase<2>::position counts bits of the second
 word

---
 sources/utilities/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/utilities/bitset.cpp b/sources/utilities/bitset.cpp
index 3b7fc77..f9c461c 100644
--- a/sources/utilities/bitset.cpp
+++ b/sources/utilities/bitset.cpp
@@ -91,7 +91,7 @@ bool BitSetBase<2>::test(unsigned int j) const
 
 unsigned int BitSetBase<2>::position(unsigned int j) const
 {
-  if (j >> constants::baseShift !=0) // two terms
+  if (j >= 32) // two terms
     return bits::bitCount(d_bits1 &
 			  constants::lt_mask[j & 31])
       + bits::bitCount(d_bits0);
-- 
2.43.0


From 220e6de7713fe5c1ddb75143c35c74f0fbaa1483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 17/25] fix: sl_list::splice of a final segment to the end of
 its own list keeps tail

---
 sources/utilities/sl_list.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/utilities/sl_list.h b/sources/utilities/sl_list.h
index 807a318..5e83154 100644
--- a/sources/utilities/sl_list.h
+++ b/sources/utilities/sl_list.h
@@ -1721,9 +1721,10 @@ template<typename T, typename Alloc>
 
     // the following adjustments are needed independently; they can only both
     // apply when |this==&other| and |pos==end|; then the final effect is no-op
+    const bool at_back = pos==cend(); // test before |other.tail| is modified
     if (end==other.cend()) // splicing may cut off tail from |other|
       other.tail = begin.link_loc; // in which case we must reset |other.tail|
-    if (pos==cend()) // if splicing to the end of |*this|
+    if (at_back) // if splicing to the end of |*this|
       tail = end.link_loc; // then we must reset |tail| to end of spliced range
 
     // cycle backward |(*pos.link_loc, *begin.link_loc, *end.link_loc)|:
-- 
2.43.0


From 0f6fc60273959715da42c1179227ab5520fd7443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:41 +0000
Subject: [PATCH 18/25] fix: inserting an empty range into a list returns an
 iterator into that list

---
 sources/utilities/sl_list.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sources/utilities/sl_list.h b/sources/utilities/sl_list.h
index 5e83154..2cd5b80 100644
--- a/sources/utilities/sl_list.h
+++ b/sources/utilities/sl_list.h
@@ -674,6 +674,9 @@ template<typename T, typename Alloc>
       return iterator(*pos.link_loc);
     }
 
+    if (first==last)
+      return iterator(*pos.link_loc); // avoid pointing into local list below
+
     // otherwise do insertion at end of initially empty list, then splice it
     simple_list insertion(get_allocator()); // build range to insert
     auto p = insertion.cbegin();
@@ -702,6 +705,9 @@ template<typename T, typename Alloc>
       return iterator(*pos.link_loc);
     }
 
+    if (first==last)
+      return iterator(*pos.link_loc); // avoid pointing into local list below
+
     // otherwise do insertion at end of initially empty list, then splice it
     simple_list insertion(get_node_allocator()); // build range to insert
     auto p = insertion.cbegin();
@@ -1574,6 +1580,9 @@ template<typename T, typename Alloc>
     if (at_end(pos))
       return append(first,last); // this will adapt |tail| and |node_count|
 
+    if (first==last)
+      return iterator(*pos.link_loc); // avoid pointing into local list below
+
     // create extra range separately first: more efficient and ensures roll-back
     sl_list aux(first,last,get_allocator()); // build range to insert
 
@@ -1603,6 +1612,9 @@ template<typename T, typename Alloc>
       return end();
     }
 
+    if (first==last)
+      return iterator(*pos.link_loc); // avoid pointing into local list below
+
     sl_list aux(get_allocator()); // prepare range to insert
     // emulate non-existing "move construct from iterator range":
     for( ; first!=last; ++first)
-- 
2.43.0


From 9fb3ca6c19aec11ab952d735a045f947e01c1cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:45 +0000
Subject: [PATCH 19/25] fix: coefficient assignments in ParamPol and KTypePol
 values test for real form mismatch

---
 sources/interpreter/atlas-types.w | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/interpreter/atlas-types.w b/sources/interpreter/atlas-types.w
index d7239bf..e73aa1f 100644
--- a/sources/interpreter/atlas-types.w
+++ b/sources/interpreter/atlas-types.w
@@ -5830,6 +5830,9 @@ calling |set_coefficient| with a zero value.
 void K_type_pol_value::assign_coef
   (const K_type_value& t, const Split_integer& c)
 {
+  if (rf!=t.rf and rf->val!=t.rf->val)
+    throw runtime_error @|
+      ("Real form mismatch in coefficient assignment for KTypePol value");
   test_final(t,"In coefficient assignment for KTypePol value");
   if (c.is_zero())
     val.clear_coefficient(t.val);
@@ -8032,6 +8035,9 @@ at all,
 void virtual_module_value::assign_coef
   (const module_parameter_value& t, const Split_integer& c)
 {
+  if (rf!=t.rf and rf->val!=t.rf->val)
+    throw runtime_error @|
+      ("Real form mismatch in coefficient assignment for ParamPol value");
   test_final(t,"In coefficient assignment for ParamPol value");
   auto interval = val.equal_range(t.val);
   if (interval.first==interval.second) // no term present
-- 
2.43.0


From ed687862ef9500e745116ff10ffb900eab5d960a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:45 +0000
Subject: [PATCH 20/25] fix: Free_Abelian_light merges terms by its own
 comparison

---
 sources/utilities/free_abelian_def.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/utilities/free_abelian_def.h b/sources/utilities/free_abelian_def.h
index 5a76e45..083a0e2 100644
--- a/sources/utilities/free_abelian_def.h
+++ b/sources/utilities/free_abelian_def.h
@@ -214,7 +214,7 @@ template<typename T, typename C, typename Compare>
       for (auto& entry : *L_it)
 	if (entry.second!=C(0)) // skip any term whose coefficient has become 0
 	{
-	  for ( ; it!=org.end() and it->first < entry.first; ++it)
+	  for ( ; it!=org.end() and cmp()(it->first,entry.first); ++it)
 	    v.push_back(std::move(*it));
 	  v.push_back(std::move(entry));
 	}
-- 
2.43.0


From 3af365054445474159563486091f492ec6174347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 21/25] fix: diagonalise returns row and column matrices of
 determinant 1

---
 sources/utilities/matreduc.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/utilities/matreduc.cpp b/sources/utilities/matreduc.cpp
index 2c8b619..2b6b727 100644
--- a/sources/utilities/matreduc.cpp
+++ b/sources/utilities/matreduc.cpp
@@ -169,7 +169,7 @@ std::vector<C> diagonalise(matrix::PID_Matrix<C> M, // by value
 
     pivot_columns.insert(l); // there will be a pivot at |M(k,l)|
 
-    row_minus=flip;
+    row_minus^=flip;
     ops.transpose(); // because recorded column operations applied as row ops
     row_apply(M,ops,k);
     row_apply(row,ops,k);
@@ -198,8 +198,6 @@ std::vector<C> diagonalise(matrix::PID_Matrix<C> M, // by value
     }
     while(d<old_d);
 
-    row_minus^=flip;
-
     diagonal.push_back(d); // record positive gcd that finally remains
     ++k; // record that this row contains a pivot, so has been dealt with
   } // |for(l)|
-- 
2.43.0


From 86665e7c405010b877ad36b91e05a3489fadeacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 22/25] fix: mod2_section refuses matrices beyond the capacity
 of BinaryMap

---
 sources/interpreter/global.w | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sources/interpreter/global.w b/sources/interpreter/global.w
index 29ca6ef..e29b362 100644
--- a/sources/interpreter/global.w
+++ b/sources/interpreter/global.w
@@ -5752,6 +5752,13 @@ fails to exist (though it may fail to be unique).
 void section_wrapper(eval_level l)
 {
   shared_matrix m=get<matrix_value>();
+  const unsigned int limit=constants::RANK_MAX; // capacity of |BinaryMap|
+  if (m->val.n_rows()>limit or m->val.n_columns()>limit)
+  { std::ostringstream o;
+    o << "Matrix too large: " << m->val.n_rows() << 'x' << m->val.n_columns() @|
+      << ", limit is " << limit;
+    throw runtime_error(o.str());
+  }
   BinaryMap B = BinaryMap(m->val).section();
   own_matrix res = std::make_shared<matrix_value>(
     int_Matrix(B.n_rows(),B.n_columns()));
-- 
2.43.0


From c055e3afa5c7f30fee25a694ab8e17da4d7e59d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:59 +0000
Subject: [PATCH 23/25] fix: block_deform expands parameters slid to nu=0 into
 final ones

---
 sources/interpreter/atlas-types.w | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/interpreter/atlas-types.w b/sources/interpreter/atlas-types.w
index e73aa1f..1fd561f 100644
--- a/sources/interpreter/atlas-types.w
+++ b/sources/interpreter/atlas-types.w
@@ -8434,7 +8434,8 @@ the accumulator after which another block is deformed.
 The method |Rep_table::block_deformation_to_height| does the work inside the
 block, but leaves post-deformation parameters of the block in its result; to
 avoid that these should get deformed again, we slide them down here to the next
-deformation point in the direction of $\nu=0$.
+deformation point in the direction of $\nu=0$. When that point is $\nu=0$ the
+result may fail to be final, so we expand it into final parameters.
 
 @s SR_poly vector
 
@@ -8458,7 +8459,9 @@ void block_deform_wrapper(eval_level l)
       auto i =
         rps.size()>0 and rps.back()==RatNum(1) ? rps.size()-1 : rps.size();
       RatNum f = i>0 ? rps[i-1] : RatNum(0);
-      result.add_term(p->rc().scale(term.first,f),term.second);
+      auto finals = p->rc().finals_for(p->rc().scale(term.first,f));
+      for (auto jt=finals.begin(); not finals.at_end(jt); ++jt)
+        result.add_term(std::move(jt->first),term.second*jt->second);
     }
   }
   push_value(std::make_shared<virtual_module_value>(p->rf,std::move(result)));
-- 
2.43.0


From 8e4f9290d831200c3a3d58dd644c49135ac0cf78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 24/25] fix: K-types are compared and normalised by their
 canonical form

K_repr::equivalent compared components that are not canonical, so that K-types
with the same normal form could be reported inequivalent, and normalise did
not bring all equivalent K-types to the same form.
---
 sources/gkmod/K_repr.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/sources/gkmod/K_repr.cpp b/sources/gkmod/K_repr.cpp
index e365890..b16e4ad 100644
--- a/sources/gkmod/K_repr.cpp
+++ b/sources/gkmod/K_repr.cpp
@@ -162,9 +162,10 @@ Rep_context::equivalent(K_repr::K_type z0, K_repr::K_type z1) const // by value
 {
   if (kgb().Cartan_class(z0.x())!=kgb().Cartan_class(z1.x()))
     return false; // this non-equivalence requires little work to see
-  to_canonical_involution(z0);
-  to_canonical_involution(z1);
-  // at the canonical involution equivalence means equal |x| and |lambda_rho|
+  // equal |x| and |lambda_rho| at the canonical involution is not necessary: the
+  // stabiliser of that involution can act nontrivially; compare normal forms
+  normalise(z0);
+  normalise(z1);
   return z0==z1;
 }
 
@@ -245,12 +246,30 @@ void Rep_context::to_canonical_involution
 void Rep_context::normalise(K_repr::K_type& z) const
 {
   to_canonical_involution(z);
-  // at the canonical involution equivalence means equal |x| and |lambda_rho|
-  // so it only remains to ensure moving to a final class member if one exists
 
   const auto& rd = root_datum();
   KGBElt& x=z.d_x; Weight& lr = z.lam_rho; // operate directly on components
 
+  { weyl::Generator s;
+    do // make complex-dominant, since complex reflections that stabilise the
+      // canonical involution can still change |x| and |lambda_rho|
+      for (s=0; s<rd.semisimple_rank(); ++s)
+	if (kgb().status(x).isComplex(s) and
+	    theta_plus_1_eval(z,rd.simpleRootNbr(s))<0)
+	{
+	  x = kgb().cross(s,x);
+	  rd.simple_reflect(s,lr,1); // $-\rho$-based reflection
+	  break; // out of the loop |for(s)|
+	}
+    while (s<rd.semisimple_rank()); // wait until inner loop runs to completion
+  }
+
+  RankFlags singular;
+  for (weyl::Generator s=0; s<rd.semisimple_rank(); ++s)
+    singular.set(s,theta_plus_1_eval(z,rd.simpleRootNbr(s))==0);
+  to_canonical_involution(z,singular); // unique, when |z| is standard
+  // so it only remains to ensure moving to a final class member if one exists
+
   { weyl::Generator s;
     do // a variation of |make_theta_stable|: exhaust singular complex descents
       for (s=0; s<rd.semisimple_rank(); ++s)
-- 
2.43.0


From cab63d866001acf7a893722a2b2ee2f659bea9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:38 +0000
Subject: [PATCH 25/25] fix: Cartan_order uses the Cartan classes of the real
 form

The rows and columns were taken for the initial Cartan classes of the inner
class instead of those that occur for the real form.
---
 sources/interpreter/atlas-types.w | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/interpreter/atlas-types.w b/sources/interpreter/atlas-types.w
index 1fd561f..f31e92c 100644
--- a/sources/interpreter/atlas-types.w
+++ b/sources/interpreter/atlas-types.w
@@ -3884,9 +3884,10 @@ void Cartan_order_wrapper(eval_level l)
   unsigned int n=rf->val.numCartan();
   own_matrix M = std::make_shared<matrix_value>(int_Matrix(n,n,0));
   const poset::Poset& p = rf->val.innerClass().Cartan_ordering();
+  const BitMap cs=rf->val.Cartan_set(); // numbers in inner class
   for (unsigned int i=0; i<n; ++i)
     for (unsigned int j=i; j<n; ++j)
-      if (p.lesseq(i,j)) M->val(i,j)=1;
+      if (p.lesseq(cs.n_th(i),cs.n_th(j))) M->val(i,j)=1;
 
   push_value(std::move(M));
 }
-- 
2.43.0

