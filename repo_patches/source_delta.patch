From f46895222ce981698cf451abb1062b942dda3311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 01/91] fix: do not list a parameter whose name is already
 taken

---
 src/MinuitParameterSet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 549974f..cbd5a67 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -31,12 +31,12 @@ bool MinuitParameterSet::addToEnd( MinuitParameter* parPtr )
 {
   bool success = true;
   if ( nullptr == parPtr ) return false;
-  m_parameters.push_back( parPtr );
   if ( m_keyAccess.find( parPtr->name() ) != m_keyAccess.end() ) {
     WARNING( "Parameter with name " << parPtr->name() << " already exists!, skipping" );
     return false; 
   }
   DEBUG( "Adding: " << parPtr->name() ); 
+  m_parameters.push_back( parPtr );
   m_keyAccess[parPtr->name()] = parPtr;
   return success;
 }
-- 
2.43.0


From a4063210bdf714890518c21d3f7caa8ed9e0619a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 02/91] fix: forget the name of an unregistered parameter

---
 src/MinuitParameterSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index cbd5a67..2a81a42 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -57,6 +57,8 @@ bool MinuitParameterSet::unregister( MinuitParameter* parPtr )
     return false;
   }
   m_parameters.erase( remove( m_parameters.begin(), m_parameters.end(), parPtr ), m_parameters.end() );
+  auto it = m_keyAccess.find( parPtr->name() );
+  if ( it != m_keyAccess.end() && it->second == parPtr ) m_keyAccess.erase( it );
   return true;
 }
 
-- 
2.43.0


From da5f2c34ea85e2ad775174dee16ab1366202db32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 03/91] fix: parameter lookup by unknown name returns null
 instead of dereferencing end()

---
 src/MinuitParameterSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 2a81a42..2884cd9 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -84,6 +84,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key )
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
@@ -93,6 +94,7 @@ MinuitParameter* MinuitParameterSet::operator[]( const std::string& key ) const
   auto it = m_keyAccess.find( key );
   if ( it == m_keyAccess.end() ) {
     WARNING( "Parameter: " << key << " not found" );
+    return nullptr;
   }
   return it->second;
 }
-- 
2.43.0


From f81565b672fa527c5321e53d9d2cccb85040da69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 04/91] fix: flagless MinuitParameter constructor uses its
 arguments

---
 src/MinuitParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MinuitParameter.cpp b/src/MinuitParameter.cpp
index 0ef9140..c00ff87 100644
--- a/src/MinuitParameter.cpp
+++ b/src/MinuitParameter.cpp
@@ -22,7 +22,7 @@ MinuitParameter::MinuitParameter( const std::string& name, const Flag& fix, cons
 }
 
 MinuitParameter::MinuitParameter( const std::string& name, const double& mean, const double& step, const double& mi, const double& ma )
-  : MinuitParameter(name, Flag::Free, m_meanInit, m_stepInit, m_minInit, m_maxInit ) 
+  : MinuitParameter(name, Flag::Free, mean, step, mi, ma ) 
 {
   DEBUG( "Building parameter : " << name );
   resetToInit();
-- 
2.43.0


From 6f8f783faa713ae006341fb1dd3f8481bc4e032c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 05/91] fix: list an overwritten option once in the ordered
 input

---
 src/OptionsParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index 2bdafe7..a85e89c 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -119,8 +119,8 @@ void OptionsParser::addArg( const std::vector<std::string>& tokens )
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
   else { 
+    if( m_parsedLines.count(key) == 0 ) m_orderedKeys.push_back(key); 
     m_parsedLines[key] = tokens; 
-    m_orderedKeys.push_back(key); 
   }
 }
 
-- 
2.43.0


From 638c2178e368db9683f8a95446dc81d981a3ef31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 06/91] fix: ignore option lines without any token

---
 src/OptionsParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index a85e89c..f81e533 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -115,6 +115,7 @@ void OptionsParser::addArg( const std::string& arg )
 
 void OptionsParser::addArg( const std::vector<std::string>& tokens )
 {
+  if( tokens.empty() ) return; 
   const auto& key = tokens[0];
   DEBUG("Adding arg with key: " << key );
   if( m_keywords.count(key) != 0 ) m_keywords[key]( tokens );
-- 
2.43.0


From a314b93318d4b387262e4f6a213e2cdf8cbeec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 07/91] fix: keep the option token directly in front of a
 comment

---
 src/OptionsParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/OptionsParser.cpp b/src/OptionsParser.cpp
index f81e533..a4fd316 100644
--- a/src/OptionsParser.cpp
+++ b/src/OptionsParser.cpp
@@ -138,7 +138,10 @@ std::vector<std::string> OptionsParser::makeParsedStrings( const std::string& li
   std::vector<std::string> fillThisList;
 
   for ( std::string::const_iterator it = s.begin(); it != s.end(); ++it ) {
-    if ( !insideQuotes && *it == '#' ) break; /// indicates a comment, except in speech marks ///
+    if ( !insideQuotes && *it == '#' ) { /// indicates a comment, except in speech marks ///
+      if ( !prevBlank ) fillThisList.emplace_back( prev, it );
+      break;
+    }
     if ( ( ( !insideQuotes ) && std::isblank( *it ) ) || *it == '"' || ignore ) {
       if ( !prevBlank ) {
         std::string tmp_s( prev, it );
-- 
2.43.0


From 805e0d37191feaefffe1421fa36bae8aaaf994eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 08/91] fix: numbers outside an enumeration and the empty word
 are not enumerators

---
 AmpGen/enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/enum.h b/AmpGen/enum.h
index b6529ee..29b8dfb 100644
--- a/AmpGen/enum.h
+++ b/AmpGen/enum.h
@@ -32,7 +32,7 @@ namespace AmpGen {
     {
       char* p;                                                 
       auto number = strtoul( word.c_str(), &p, 10 );           
-      if( *p == 0 ) return T(number);
+      if( *p == 0 && p != word.c_str() && number < (unsigned long)(T::Invalid) ) return T(number);
       unsigned counter = 0;
       unsigned begin = 0;
       unsigned end   = 0;
-- 
2.43.0


From 717189c420abd073821191c4a1a135ec10156f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 09/91] fix: expanding ${VAR} keeps the character after the
 brace

---
 src/Utilities.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1b1948a..1a7b3d8 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -343,7 +343,6 @@ std::string AmpGen::expandGlobals( std::string path )
     if ( path[pos + 1] == '{' ) {
       end_pos       = path.find( "}", pos );
       variable_name = path.substr( pos + 2, end_pos - pos - 2 );
-      end_pos       = end_pos + 1;
     } else {
       end_pos       = find_next_of( path, {".", "/"}, pos );
       variable_name = path.substr( pos + 1, end_pos - pos - 1 );
-- 
2.43.0


From 24bac58789f805f30ad2198186edb357c06d43d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 10/91] fix: replaceAll continues after the replacement

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 1a7b3d8..c74c385 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -117,7 +117,7 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
     pos = output.find( toReplace, start_pos );
     if ( pos != std::string::npos ) {
       output.replace( pos, toReplace.length(), replaceWith );
-      start_pos = pos + toReplace.length();
+      start_pos = pos + replaceWith.length();
     }
   } while ( pos != std::string::npos );
   return output;
-- 
2.43.0


From be00503c34371a5ce10c563481981e3008a086bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 11/91] fix: exchange parity of a cycle counts every swap

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index c74c385..acb3bb8 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -507,7 +507,7 @@ std::pair<size_t,int> AmpGen::minSwaps(const std::vector<size_t>& indices, const
       cycle_size++; 
     } 
     if( cycle_size > 0 ){
-      netExchangeParity *= exchangeParities[i]; 
+      if( cycle_size % 2 == 0 ) netExchangeParity *= exchangeParities[i]; // one exchange per swap, cycle_size-1 swaps
       ans += (cycle_size - 1); 
     }
   } 
-- 
2.43.0


From 6afe05536c9fa0bc692bc08b0704f23c3702347a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:34 +0000
Subject: [PATCH 12/91] fix: wildcard matching considers every place a pattern
 can match

---
 src/Utilities.cpp | 22 +++++-----------------
 1 file changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index acb3bb8..20a061a 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -217,23 +217,11 @@ bool AmpGen::stringMatchesWildcard( const std::string& input, const std::string&
     const char wildcard_character )
 {
   auto pos = wildcard_string.find( wildcard_character ); /// TEST_foobar -> *_foobar
-  if ( wildcard_string.size() == 1 && wildcard_string[0] == wildcard_character ) {
-    return true;
-  }
-  if ( pos == std::string::npos ) {
-    return input == wildcard_string;
-  }
-  if ( pos == wildcard_string.size() - 1 ) {
-    return input.find( wildcard_string.substr( 0, wildcard_string.size() - 1 ) ) == 0;
-  } else {
-    const std::string pattern1 = wildcard_string.substr( 0, pos + 1 );
-    const std::string pattern2 = wildcard_string.substr( pos + 1 );
-    bool match1 = stringMatchesWildcard( input, pattern1, wildcard_character );
-    if ( !match1 ) return false;
-    auto pos2             = pattern2.find( wildcard_character );
-    auto posInInputString = input.find( pattern2.substr( 0, pos2 ) );
-    if ( posInInputString == std::string::npos ) return false;
-    return stringMatchesWildcard( input.substr( posInInputString ), pattern2, wildcard_character );
+  if ( pos == std::string::npos ) return input == wildcard_string;
+  if ( input.compare( 0, pos, wildcard_string, 0, pos ) != 0 ) return false;
+  const std::string pattern = wildcard_string.substr( pos + 1 );
+  for ( size_t i = pos; i <= input.size(); ++i ) {
+    if ( stringMatchesWildcard( input.substr( i ), pattern, wildcard_character ) ) return true;
   }
   return false;
 }
-- 
2.43.0


From d06caa7a673cabd1f834f83ea39dc866a5c29876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 13/91] fix: signs of the derivatives of asin and acos

---
 src/UnaryExpression.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/UnaryExpression.cpp b/src/UnaryExpression.cpp
index 3b09b3a..8fcb37a 100644
--- a/src/UnaryExpression.cpp
+++ b/src/UnaryExpression.cpp
@@ -85,8 +85,8 @@ Expression Sin::d()  const { return   fcn::cos(arg()) ; }
 
 Expression Tan::d()  const { return 1. / ( fcn::cos(arg()) * fcn::cos(arg()) );}
 
-Expression ACos::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ); }
-Expression ASin::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ) ; }
+Expression ACos::d() const { return -1 / fcn::sqrt( 1 - arg()*arg() ); }
+Expression ASin::d() const { return  1 / fcn::sqrt( 1 - arg()*arg() ) ; }
 Expression ATan::d() const { return 1 / ( 1 + arg()*arg() ); }
 
 Expression ISqrt::d() const { return -1./ ( 2 * Pow( arg() , 1.5 ) ); }
-- 
2.43.0


From 84c1e47e14ddc8dc6acc4a5355ddbbe2e35fd857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 14/91] fix: normal ordering keeps factors that are other
 binary expressions

---
 src/Simplify.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simplify.cpp b/src/Simplify.cpp
index b39c5b6..ab279c4 100644
--- a/src/Simplify.cpp
+++ b/src/Simplify.cpp
@@ -12,7 +12,7 @@
 using namespace AmpGen;
 
 void NormalOrderedExpression::Term::addExpression( const Expression& expression){
-  if( is<IBinaryExpression>(expression) ){
+  if( is<Product>(expression) || is<Divide>(expression) || is<Sum>(expression) || is<Sub>(expression) ){
     auto argAsBin = dynamic_cast<IBinaryExpression*>(expression.get());
     auto l = argAsBin->l(); 
     auto r = argAsBin->r(); 
-- 
2.43.0


From 9f432eedb02699b98cfe0b274432d91ea8911685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 15/91] fix: evaluate fmod expressions

---
 src/BinaryExpression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinaryExpression.cpp b/src/BinaryExpression.cpp
index 5fee9f1..e41dcf0 100644
--- a/src/BinaryExpression.cpp
+++ b/src/BinaryExpression.cpp
@@ -37,7 +37,7 @@ complex_t LessThan::operator()()    const { return complex_t(std::real(lval()) <
 complex_t GreaterThanEqualTo::operator()() const { return complex_t(std::real(lval()) >= std::real(rval()) ,0); }
 complex_t LessThanEqualTo::operator()()    const { return complex_t(std::real(lval()) <= std::real(rval()) ,0); }
 complex_t Pow::operator()()         const { return pow( lval(), rval() ); }
-complex_t Fmod::operator()()        const { return 0; }
+complex_t Fmod::operator()()        const { return std::fmod( std::real(lval()), std::real(rval()) ); }
 complex_t Equal::operator()()       const { return lval() == rval() ; } 
 complex_t Or::operator()()          const { return std::real(lval()) || std::real(rval()) ; }
 complex_t ATan2::operator()()       const { return atan2( std::real(lval() ), std::real(rval() ) ); }
-- 
2.43.0


From efb5b96acb93109b7a002351181f87a2416ca853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:22 +0000
Subject: [PATCH 16/91] fix: print constants with enough digits to recover
 their value

---
 src/Expression.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Expression.cpp b/src/Expression.cpp
index aa11146..89308a8 100644
--- a/src/Expression.cpp
+++ b/src/Expression.cpp
@@ -1,5 +1,6 @@
 #include <memory.h>
 #include <cmath>
+#include <cstdlib>
 #include <complex>
 #include <iosfwd>
 #include <limits>
@@ -56,6 +57,7 @@ bool isZero( const complex_t& A ){
 std::string Constant::to_string(const ASTResolver* resolver) const {  
   auto rounded_string = [](const double& val ){
     std::string str = mysprintf("%g", val);
+    for( int precision = 7; precision <= 17 && std::strtod( str.c_str(), nullptr ) != val; ++precision ) str = mysprintf("%.*g", precision, val);
     return  str.find(".") != std::string::npos or str.find("e") != std::string::npos ? str : str + ".";
   };
   std::string complex_type = type_string<complex_t>();
-- 
2.43.0


From 0fc544a3c7c6605bf607a4126d7281c9e8f1c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 17/91] fix: normal ordering keeps bracketed factors left over
 by dividing by a quotient

---
 src/Simplify.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Simplify.cpp b/src/Simplify.cpp
index ab279c4..9744a66 100644
--- a/src/Simplify.cpp
+++ b/src/Simplify.cpp
@@ -12,7 +12,7 @@
 using namespace AmpGen;
 
 void NormalOrderedExpression::Term::addExpression( const Expression& expression){
-  if( is<Product>(expression) || is<Divide>(expression) || is<Sum>(expression) || is<Sub>(expression) ){
+  if( is<Product>(expression) || is<Divide>(expression) ){
     auto argAsBin = dynamic_cast<IBinaryExpression*>(expression.get());
     auto l = argAsBin->l(); 
     auto r = argAsBin->r(); 
@@ -20,8 +20,6 @@ void NormalOrderedExpression::Term::addExpression( const Expression& expression)
       addExpression(l);
       addExpression(r);
     }
-    if( is<Sum>(expression) || is<Sub>(expression) ) 
-      ERROR("I never should get here, brackets should be pre-expanded [" << expression << "] " );
     if( is<Divide>(expression) ){
       addExpression( l );
       m_divisor = m_divisor * r ;  
-- 
2.43.0


From a20cd6640b331dcd4c83e06f4bbc2c55039e2477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:22 +0000
Subject: [PATCH 18/91] fix: loading an option whose name starts or ends with =
 does not read past its parts

---
 src/MinuitParameterSet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MinuitParameterSet.cpp b/src/MinuitParameterSet.cpp
index 2884cd9..fdd0aee 100644
--- a/src/MinuitParameterSet.cpp
+++ b/src/MinuitParameterSet.cpp
@@ -175,6 +175,7 @@ void MinuitParameterSet::loadFromStream()
     else if ( tokens[0].find("=") != std::string::npos && ! Particle::isValidDecayDescriptor( tokens[0] ) )
     {
       auto expanded = split(tokens[0], '=');
+      if( expanded.size() < 2 ) continue; 
       WARNING( tokens[0] << " could be an expression, but not separated with white space. Did you mean: " << expanded[0] << " = " << expanded[1]  << " ... ?"); 
     }
   }
-- 
2.43.0


From 26ecc6091ed5379bf97b39f48d9d036dfa4d862a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:53 +0000
Subject: [PATCH 19/91] fix: parallel_sort terminates for grain sizes of one
 and below

---
 AmpGen/Utilities.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Utilities.h b/AmpGen/Utilities.h
index e34f5c9..55d3ff8 100644
--- a/AmpGen/Utilities.h
+++ b/AmpGen/Utilities.h
@@ -136,7 +136,7 @@ namespace AmpGen {
           const size_t& grainsize)
       {
         const size_t len   = end - begin; 
-        if(len < grainsize) std::sort(begin, end, comp);
+        if(len < 2 || len < grainsize) std::sort(begin, end, comp);
         else
         {
           const auto  middle = begin + len/2;
-- 
2.43.0


From 3dda9e6c207a86213f6ff030fef392c7211bacd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:53 +0000
Subject: [PATCH 20/91] fix: replacing the empty string terminates

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index 20a061a..a50d098 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -108,7 +108,7 @@ std::string AmpGen::replaceAll( const std::string& input, const std::string& toR
 {
   size_t pos         = 0;
   std::string output = input;
-  if ( toReplace == replaceWith ) {
+  if ( toReplace.empty() || toReplace == replaceWith ) {
     ERROR( "This will lead to infinite loop and not do anything!" );
     return input;
   }
-- 
2.43.0


From 46617f21c8efc8cf94f82e47f3b0520bbef94e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:53 +0000
Subject: [PATCH 21/91] fix: report closing braces without an opening one
 instead of reading past the matches

---
 src/Utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index a50d098..b2c84f6 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -160,6 +160,10 @@ std::vector<std::string> AmpGen::getItems( const std::string& tree,
       break;
     }
   }
+  if ( 2 * matched_braces.size() != braces.size() ) {
+    ERROR( "Unmatched braces in expression: " << tree );
+    return std::vector<std::string>();
+  }
   auto commas = findAll( tree, seperator ); //// commas delimit separate decays;
   std::vector<std::string> daughterTrees;
   size_t begin_position = matched_braces.begin()->first + 1;
-- 
2.43.0


From 7536fda677a96a1443c3c38c3215dc74af4eb255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:45:21 +0000
Subject: [PATCH 22/91] fix: vectorFromFile uses the comment character it is
 given

---
 src/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utilities.cpp b/src/Utilities.cpp
index b2c84f6..e61c7b5 100644
--- a/src/Utilities.cpp
+++ b/src/Utilities.cpp
@@ -18,7 +18,7 @@
 std::vector<std::string> AmpGen::vectorFromFile( const std::string& filename, const char ignoreLinesThatBeginWith )
 {
   std::vector<std::string> output;
-  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);} ); 
+  processFile( filename, [&output](const std::string& line) mutable -> void {output.push_back(line);}, ignoreLinesThatBeginWith ); 
   return output;
 }
 
-- 
2.43.0


From 2b1342b906f44a09c29de35b1cc388c8dc3782ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:21 +0000
Subject: [PATCH 23/91] fix: with the thread pool disabled, the future delivers
 the result of the task

---
 AmpGen/ThreadPool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/ThreadPool.h b/AmpGen/ThreadPool.h
index 5b2d1ee..d205d21 100644
--- a/AmpGen/ThreadPool.h
+++ b/AmpGen/ThreadPool.h
@@ -68,7 +68,7 @@ namespace AmpGen
     using return_type = typename std::invoke_result_t<F, Args...>;
     auto task = std::make_shared< std::packaged_task<return_type()> >( f, args... );
     std::future<return_type> res = task->get_future();
-    if(! m_enableThreadPool ) {  f(args...); return res; } 
+    if(! m_enableThreadPool ) {  (*task)(); return res; } 
     else
     {
       {
-- 
2.43.0


From d06b4b121e2abdec6ee99d7c8fd28199aaaebb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:21 +0000
Subject: [PATCH 24/91] fix: a stopped thread pool can be destroyed, and
 refuses tasks it can no longer run

---
 src/ThreadPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ThreadPool.cpp b/src/ThreadPool.cpp
index b0489cf..e30a4fb 100644
--- a/src/ThreadPool.cpp
+++ b/src/ThreadPool.cpp
@@ -37,5 +37,5 @@ void ThreadPool::waitForStoppedThreads()
   }
   m_condition.notify_all();
   for(std::thread &worker: m_workers) worker.join();
-  m_stop = false;
+  m_workers.clear();
 }
-- 
2.43.0


From 6d597d7081d6d38cf0e4699f805b4cffec8f82e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:04 +0000
Subject: [PATCH 25/91] fix: half-integer spins print as twice the spin over
 two

---
 src/ParticleProperties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticleProperties.cpp b/src/ParticleProperties.cpp
index 4558301..d0fd652 100644
--- a/src/ParticleProperties.cpp
+++ b/src/ParticleProperties.cpp
@@ -53,7 +53,7 @@ std::string ParticleProperties::J() const
 {
   if( m_twoSpin == -1 ) return "?";
   if( m_twoSpin % 2 == 0 ) return std::to_string( int(m_twoSpin/2) );
-  if( m_twoSpin % 2 == 1 ) return std::to_string( int(m_twoSpin/2) ) + "/2";
+  if( m_twoSpin % 2 == 1 ) return std::to_string( m_twoSpin ) + "/2";
   return "";
 }
 
-- 
2.43.0


From e53b382645b9a6e0f71df91c4dabf2f0be683551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:04 +0000
Subject: [PATCH 26/91] fix: initialise the antiparticle format of particles
 added by hand

---
 AmpGen/ParticleProperties.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/AmpGen/ParticleProperties.h b/AmpGen/ParticleProperties.h
index 9e1a9ad..7e4afbd 100644
--- a/AmpGen/ParticleProperties.h
+++ b/AmpGen/ParticleProperties.h
@@ -98,10 +98,10 @@ namespace AmpGen
       std::string m_name{""};            ///< particle name
       std::string m_texName{""};         ///< latex label of particle
       std::string m_chargeString{""};    ///< string for particle charge
-      char m_Aformat;                    ///< anti-particle format character
-      char m_status;                     ///< status (estalished or not etc)
+      char m_Aformat{' '};               ///< anti-particle format character
+      char m_status{' '};                ///< status (estalished or not etc)
       QuarkContent m_quarkContent;       ///< The quark content of the state (uD, uud etc.)
-      bool m_isValid;                    ///< Flag to check whether the ParticleProperties have configured correctly 
+      bool m_isValid{false};             ///< Flag to check whether the ParticleProperties have configured correctly 
       bool m_customName = {false};       ///< Flag to make custom name 
       void antiQuarks();
       void antiCharge();
-- 
2.43.0


From cbd2d8eeb0d3310d7c16b9165a595dc90269db5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:04 +0000
Subject: [PATCH 27/91] fix: a property without a value is not read past the
 end of the line

---
 src/ParticlePropertiesList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index 78d5c74..af2ec0d 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -207,7 +207,7 @@ void ParticlePropertiesList::addParticle( const std::vector<std::string>& tokens
     pp = new ParticleProperties();
     pp->setProperty("name", name );
   }
-  for( int i = 2; i != tokens.size(); i+=2 )
+  for( size_t i = 2; i + 1 < tokens.size(); i+=2 )
   {
     pp->setProperty( tokens[i], tokens[i+1] );
   } 
-- 
2.43.0


From 3df7e3fc8d2a87b9edeb2d246ae0d0192e9b4804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:37 +0000
Subject: [PATCH 28/91] fix: particles imported after start-up are found and
 leave earlier ones valid

---
 AmpGen/ParticlePropertiesList.h | 9 +++++----
 src/ParticlePropertiesList.cpp  | 8 +++++---
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/AmpGen/ParticlePropertiesList.h b/AmpGen/ParticlePropertiesList.h
index c17af33..a4d76af 100644
--- a/AmpGen/ParticlePropertiesList.h
+++ b/AmpGen/ParticlePropertiesList.h
@@ -3,6 +3,7 @@
 // author: Jonas Rademacker (Jonas.Rademacker@bristol.ac.uk)
 // status:  Mon 9 Feb 2009 19:18:04 GMT
 
+#include <deque>
 #include <iostream>
 #include <map>
 #include <string>
@@ -18,7 +19,7 @@ namespace AmpGen
     static ParticlePropertiesList* ptr;
     std::map<int, std::pair<std::string, std::string>> m_latexLabels;
     std::string m_fname;
-    std::vector<ParticleProperties> m_theList;
+    std::deque<ParticleProperties> m_theList;
     std::map<std::string, ParticleProperties*> m_byName;
     std::map<int, ParticleProperties*> m_byID;
     double m_quasiStableThreshold;
@@ -42,11 +43,11 @@ namespace AmpGen
     std::vector<std::string> getParticleNames() const;
     std::vector<int> getParticleIds() const;
     
-    std::vector<ParticleProperties>::const_iterator begin() const { return m_theList.cbegin() ; }
-    std::vector<ParticleProperties>::const_iterator   end() const { return m_theList.cend() ; }
+    std::deque<ParticleProperties>::const_iterator begin() const { return m_theList.cbegin() ; }
+    std::deque<ParticleProperties>::const_iterator   end() const { return m_theList.cend() ; }
     void print( std::ostream& out = std::cout ) const;
     bool readLatexLabels( const std::string& name );
-    void makeMappings();
+    void makeMappings( const size_t& first = 0 );
     void addParticle(const std::vector<std::string>& properties );
   };
   std::ostream& operator<<( std::ostream& out, const ParticlePropertiesList& ppl );
diff --git a/src/ParticlePropertiesList.cpp b/src/ParticlePropertiesList.cpp
index af2ec0d..8865e0e 100644
--- a/src/ParticlePropertiesList.cpp
+++ b/src/ParticlePropertiesList.cpp
@@ -74,7 +74,6 @@ ParticlePropertiesList::ParticlePropertiesList( const std::string& fname_in )
   if( !status ){
     WARNING("Failed to load full PDG configuration, beware of unexpected behaviour");
   }
-  makeMappings();
   m_quasiStableThreshold = NamedParameter<double>( "ParticleProperties::qsThreshold", KeV ); /// limit is 1 keV
 }
 
@@ -97,6 +96,7 @@ bool ParticlePropertiesList::readFile( const std::string& name )
     return false;
   }
   DEBUG( "Reading file: " << name );
+  const size_t first = m_theList.size();
   processFile( name, [this]( auto& line ) {
     if ( line[0] == '*' ) return;
     ParticleProperties P( line );
@@ -113,12 +113,14 @@ bool ParticlePropertiesList::readFile( const std::string& name )
       m_theList.push_back( P );
     }
   } );
+  makeMappings( first );
   return true;
 }
 
-void ParticlePropertiesList::makeMappings()
+void ParticlePropertiesList::makeMappings( const size_t& first )
 {
-  for ( auto& it : m_theList ) {
+  for ( size_t i = first; i < m_theList.size(); ++i ) {
+    auto& it = m_theList[i];
     m_byName[it.name()] = &it;
     if ( it.pdgID() != 0 ) {
       auto found = m_byID.find( it.pdgID() );
-- 
2.43.0


From 284887509d1d231084d9731c9c94206d96280567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:42 +0000
Subject: [PATCH 29/91] fix: a decay with its own vertex prints its orbital
 momentum, not the vertex name

---
 src/Particle.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index e6e71b7..7fdb477 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -279,18 +279,23 @@ std::shared_ptr<Particle> Particle::daughter( const std::string& name, const int
 }
 
 
-std::string Particle::orbitalString() const
+static std::string spinOrbitString( unsigned orbital, unsigned spinConfiguration )
 {
-  if( m_vertexName != "" ) return m_vertexName; 
   constexpr std::array<char, 7> orbitals = {'S','P','D','F','G','H','I'};
-  std::string rt = std::string(1, orbitals[m_orbital] ); 
-  if( m_spinConfigurationNumber != 0 ){ 
-    if( m_spinConfigurationNumber < 10 ) rt += std::to_string( m_spinConfigurationNumber  );
-    else rt += char(m_spinConfigurationNumber-10);
+  std::string rt = std::string(1, orbitals[orbital] ); 
+  if( spinConfiguration != 0 ){ 
+    if( spinConfiguration < 10 ) rt += std::to_string( spinConfiguration );
+    else rt += char(spinConfiguration-10);
   }
   return rt; 
 }
 
+std::string Particle::orbitalString() const
+{
+  if( m_vertexName != "" ) return m_vertexName; 
+  return spinOrbitString( m_orbital, m_spinConfigurationNumber );
+}
+
 bool Particle::hasModifier( const std::string& modifier ) const
 {
   return std::find( m_modifiers.begin(), m_modifiers.end(), modifier ) != m_modifiers.end();
@@ -302,7 +307,7 @@ std::string Particle::modifierString() const
   auto append = [&modString](const std::string& toAppend){ 
     modString += ( modString == "[" ? toAppend : ";" +toAppend );
   };
-  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( orbitalString() );
+  if ( m_orbital != m_minL || m_spinConfigurationNumber != 0 ) append( spinOrbitString( m_orbital, m_spinConfigurationNumber ) );
   if ( !m_usesDefaultLineshape ) append( m_lineshape );
   std::vector<std::string> otherModifiers = {"BgSpin0", "Inco", "NoSym"};
   for ( auto& mod : otherModifiers ) if ( hasModifier( mod ) ) append(mod) ;
-- 
2.43.0


From dd387a40174f7812d192d69d2b837e96f5f15bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:42 +0000
Subject: [PATCH 30/91] fix: conjugating a decay in place also conjugates its
 name, parity and descriptor

---
 src/Particle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 7fdb477..abb832a 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -689,7 +689,10 @@ void Particle::conjThis()
 {
   if( m_props->hasDistinctAnti() ) 
     m_props = ParticlePropertiesList::get( -m_props->pdgID(), false);
+  m_name   = m_props->name();
+  m_parity = m_props->P();
   for(unsigned i = 0 ; i != m_daughters.size(); ++i) m_daughters[i]->conjThis(); 
+  m_uniqueString = makeUniqueString();
 }
 
 Particle Particle::conj( bool invertHead , bool reorder )
-- 
2.43.0


From 39d8b401058562dbff3c527ac4d01ea40c2c3e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:42 +0000
Subject: [PATCH 31/91] fix: decays that differ in the order of equal daughters
 have one printed form

---
 src/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index abb832a..bbe8f64 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -822,7 +822,8 @@ bool Particle::operator<( const Particle& other )
       && props()->pdgID() != other.props()->pdgID() ) return props()->pdgID() > other.props()->pdgID();
   if ( props()->charge() != other.props()->charge() ) return props()->charge() > other.props()->charge();
   if ( props()->pdgID() != other.props()->pdgID() ) return props()->pdgID() > other.props()->pdgID();
-  return index() < other.index();
+  if ( index() != other.index() ) return index() < other.index();
+  return uniqueString() < other.uniqueString();
 }
 
 bool Particle::operator>(const Particle& other )
-- 
2.43.0


From 79980cfa86b8d12447730c0880d5672c76118d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:58 +0000
Subject: [PATCH 32/91] fix: adding CP conjugates adds no nameless parameter

---
 src/AddCPConjugate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index c6ec1b3..91747c9 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -65,6 +65,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
       auto props = AmpGen::ParticlePropertiesList::get(pname, true);
       if( props != 0  ) new_name = props->anti().name() + "_" + tokens[1]; 
     }
+    if( new_name == "" ) continue; 
     tmp.push_back( new MinuitExpression(new_name, sgn * MinuitParameterLink(param) )) ;  
   }
   for( auto& p : tmp ){
-- 
2.43.0


From 62226c033663cf8ac0ebe3ba03660180ff44dfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:58 +0000
Subject: [PATCH 33/91] fix: complex parameters that are not decays have no CP
 conjugate

---
 src/AddCPConjugate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/AddCPConjugate.cpp b/src/AddCPConjugate.cpp
index 91747c9..6522af6 100644
--- a/src/AddCPConjugate.cpp
+++ b/src/AddCPConjugate.cpp
@@ -49,6 +49,7 @@ void AmpGen::AddCPConjugate( MinuitParameterSet& mps )
     std::string new_name = ""; 
     int sgn=1;
     if ( reOrIm == "Re" || reOrIm == "Im" ){
+      if( ParticlePropertiesList::get(pname, true) == nullptr && !Particle::isValidDecayDescriptor(pname) ) continue; 
       auto test_particle = Particle(pname);
       //DEBUG( test_particle.name() << "->" << test_particle ); 
       if( std::count( forbidden.begin(), forbidden.end(), test_particle.name() ) != 0 ){
-- 
2.43.0


From 9df64e742474173d6657623a241f5828e942d94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:33 +0000
Subject: [PATCH 34/91] fix: products with a fully contracted tensor expression

---
 src/Tensor.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 56690c0..ed0771d 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -418,22 +418,20 @@ TensorProxy AmpGen::operator*( const TensorProxy& t1, const TensorProxy& t2 )
     auto coords = Tensor::index_to_coordinates( elem, finalTensorRank );
     std::vector<unsigned> t1_coords( t1_size, 0 );
     std::vector<unsigned> t2_coords( t2_size, 0 );
-    unsigned i = 0;
     unsigned j = 0;
-    do {
+    for( unsigned i = 0; i < t1_size; ++i ) {
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.i == i ;} )){
         t1_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t1_size );
-    i = 0;
+    }
     j = t1_size - contractions.size();
-    do {
+    for( unsigned i = 0; i < t2_size; ++i ) {
       if( std::none_of( contractions.begin(), contractions.end(), [&i](const auto& a){ return a.j == i ;} )){
         t2_coords[i] = coords[j];
         j++;
       }
-    } while ( ++i < t2_size );
+    }
     
     Expression elementExpression = 0;
     for( unsigned m=0; m<nElementsInSum; ++m) {
-- 
2.43.0


From c66e6ad22da4426c338dcabf9e1b916567c817cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:33 +0000
Subject: [PATCH 35/91] fix: adding to a symmetric tensor does not symmetrise
 the sum

---
 src/Tensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index ed0771d..61d6a5a 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -496,13 +496,13 @@ TensorProxy AmpGen::operator+( const TensorProxy& t1, const TensorProxy& t2 )
     ERROR("Mapping illformed!" << indices_t1.size() << " " << indices_t2.size());
     return TensorProxy( Tensor(), {} );
   }
-  Tensor result( tensor_t1 );
+  Tensor result( tensor_t1.dims() ); // the other term need not have the symmetries of the first
 
-  for ( auto& i : tensor_t1.uniqueElements() ) {
+  for ( unsigned i = 0; i < result.nElements(); ++i ) {
     auto t1_coords = tensor_t1.coords( i );
     auto t2_coords = std::vector<unsigned>( t1_coords.size(), 0 );
     for( unsigned int j=0;j<t1_coords.size(); ++j ) t2_coords[ j ] = t1_coords[t1_to_t2_mapping[j]];
-    result[i] = result[i] + tensor_t2[t2_coords];
+    result[i] = tensor_t1[i] + tensor_t2[t2_coords];
   }
   return TensorProxy( result, indices_t1 );
 }
-- 
2.43.0


From ea73c25109dfb5d74fddebea07b7255da70f13ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:33 +0000
Subject: [PATCH 36/91] fix: symmetries imposed on a tensor one after another
 combine

---
 src/Tensor.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index 61d6a5a..ae7753d 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -516,9 +516,12 @@ void Tensor::imposeSymmetry( unsigned indexA, unsigned indexB)
     if( coordinates[indexB] > coordinates[indexA] ) 
       std::swap( coordinates[indexA], coordinates[indexB] );
     auto symmetrisedIndex = Tensor::coordinates_to_index( coordinates, m_dim );
-    counter[m_symmetrisedCoordinates[symmetrisedIndex]]++;
-    m_symmetrisedCoordinates[i] = m_symmetrisedCoordinates[symmetrisedIndex];
+    /// earlier symmetries may already relate other elements to either of the two, which then all become the same 
+    auto from = std::min( m_symmetrisedCoordinates[i], m_symmetrisedCoordinates[symmetrisedIndex] );
+    auto to   = std::max( m_symmetrisedCoordinates[i], m_symmetrisedCoordinates[symmetrisedIndex] );
+    std::replace( m_symmetrisedCoordinates.begin(), m_symmetrisedCoordinates.end(), from, to );
   }
+  for( auto& i : m_symmetrisedCoordinates ) counter[i]++; 
   m_uniqueElements.clear();
   for( auto& f : counter ) m_uniqueElements.push_back( f.first );
   DEBUG("Imposing symmetries on " << indexA << " <--> " << indexB << " reduces size to: " << counter.size());
-- 
2.43.0


From 1d5cfaab10c5deddfe13773f9a123db319b62ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:33 +0000
Subject: [PATCH 37/91] fix: reordering the indices of a tensor also reorders
 its dimensions

---
 src/Tensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Tensor.cpp b/src/Tensor.cpp
index ae7753d..4f04106 100644
--- a/src/Tensor.cpp
+++ b/src/Tensor.cpp
@@ -581,10 +581,12 @@ TensorProxy TensorProxy::reorder( const std::vector<Tensor::Index>& indices )
       if( m_indices[j] == indices[i] ) mapping[j] = i;
     }
   }
-  Tensor reordered( m_tensor.dims() ); 
+  std::vector<unsigned> dims( m_indices.size() );
+  for(unsigned z = 0 ; z < m_indices.size(); ++z ) dims[mapping[z]] = m_tensor.dims()[z];
+  Tensor reordered( dims ); 
   for(unsigned i = 0 ; i < m_tensor.size(); ++i)
   { 
-    auto coordinates       = Tensor::index_to_coordinates(i,m_tensor.dims() );
+    auto coordinates       = Tensor::index_to_coordinates(i, dims );
     std::vector<unsigned> new_coordinates( m_indices.size() );
     for(unsigned z = 0 ; z < m_indices.size(); ++z )
       new_coordinates[z] = coordinates[mapping[z]];
-- 
2.43.0


From 78aba254472b6093f26348ee00557e0e0b2c239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:33 +0000
Subject: [PATCH 38/91] fix: Clebsch-Gordan coefficients and rotation elements
 vanish for projections that do not belong to the spin

---
 src/Wigner.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Wigner.cpp b/src/Wigner.cpp
index d041d62..fddf057 100644
--- a/src/Wigner.cpp
+++ b/src/Wigner.cpp
@@ -44,8 +44,15 @@ Expression expandedBinomial( const Expression& x, const unsigned int& n )
   return sum; 
 }
 
+/// true if m is one of the projections -j, -j+1, ... j
+static bool isProjection( const double& j, const double& m )
+{
+  return std::abs(m) <= j && std::fmod( j-m, 1. ) == 0; 
+}
+
 Expression AmpGen::wigner_d( const Expression& cb, const double& j, const double& m, const double& n )
 {
+  if( !isProjection(j,m) || !isProjection(j,n) ) return 0;
   int k_min = std::max(0.,m+n);
   int k_max = std::min(j+m,j+n);
   Expression sum = 0 ; 
@@ -79,6 +86,7 @@ double AmpGen::CG(
     const double& M )
 {
   if( m1+m2!=M ) return 0;
+  if( !isProjection(j1,m1) || !isProjection(j2,m2) || !isProjection(J,M) || std::fmod( j1+j2-J, 1. ) != 0 ) return 0;
   double f1 = (2*J+1)*fact(J+j1-j2)*fact(J-j1+j2)*fact(j1+j2-J) ;
   double f2 = fact(j1+m1)*fact(j1-m1)*fact(j2+m2)*fact(j2-m2)*fact(J+M)*fact(J-M);
   double norm = f1 * f2 / fact(J+j1+j2+1) ;
-- 
2.43.0


From 17e8a0e77a4cd9158e36583a3969d6dc5a6da05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:03 +0000
Subject: [PATCH 39/91] fix: the empty sequence of transformations acts on
 spinors as the 2x2 identity

buildCache stored the 4x4 identity for the spinor representation as well, so
an empty (or cleared) sequence could not be applied to, or combined with, spinors.
---
 src/Transform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Transform.cpp b/src/Transform.cpp
index 812a6be..7149fbd 100644
--- a/src/Transform.cpp
+++ b/src/Transform.cpp
@@ -115,7 +115,7 @@ void TransformSequence::buildCache()
   {
    if( m_transforms.size() == 0 ){
      if( repr == Transform::Representation::Spinor ) m_cache[repr] = Identity(2);
-     m_cache[repr] = Identity(4);
+     else m_cache[repr] = Identity(4);
    }
    else { 
     Tensor::Index a,b,c;
-- 
2.43.0


From 28aba1973456f052d166400276ff648bc2d9b406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:03 +0000
Subject: [PATCH 40/91] fix: a sequence of transformations can be appended to
 itself

push_back iterated over the vector it was extending.
---
 src/Transform.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Transform.cpp b/src/Transform.cpp
index 7149fbd..f197335 100644
--- a/src/Transform.cpp
+++ b/src/Transform.cpp
@@ -156,7 +156,8 @@ void TransformSequence::push_back( const Transform& transform )
 
 void TransformSequence::push_back( const TransformSequence& transform )
 {
-  for( auto& t : transform ) m_transforms.emplace_back(t);
+  const std::vector<Transform> other( transform.begin(), transform.end() ); // transform may be this sequence
+  m_transforms.insert( m_transforms.end(), other.begin(), other.end() );
   buildCache();
 }
 
-- 
2.43.0


From 29cd56e0422218c0e0181b6094473992696f6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:27 +0000
Subject: [PATCH 41/91] fix: couplings given by an expression can be asked
 whether they are fixed

They have no parameters of their own, and isFixed dereferenced null.
---
 src/AmplitudeRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index ca0bec6..cd4fbf7 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -171,7 +171,7 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::getMatchingRules
 
 bool TotalCoupling::isFixed() const
 {
-  return std::all_of(begin(), end(), [](auto& c){ return c.x()->isFixed() && c.y()->isFixed() ; } );
+  return std::all_of(begin(), end(), [](auto& c){ return c.x() != nullptr && c.x()->isFixed() && c.y()->isFixed() ; } );
 }
 
 bool TotalCoupling::contains( const std::string& label ) const 
-- 
2.43.0


From 8a8f3b4e342aa3a1c1535d688cd14bc96737773a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:27 +0000
Subject: [PATCH 42/91] fix: expanding a decay substitutes each unstable
 daughter on its own

All daughters of the same name were replaced by the same sub-decay at once: the
coupling of the sub-decay was counted only once, and the cascades with different
sub-decays were lost.
---
 src/AmplitudeRules.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index cd4fbf7..3b6df9a 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -214,14 +214,14 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::expand( const Co
     for(const auto& [particle, coupling] : rt )
     {
       if(!canExpand(particle)){ newTmpParticles.emplace_back(particle, coupling);  continue; }
-      std::string nameToExpand = particle.uniqueString();
       auto fs                  = particle.getFinalStateParticles();
       auto it                  = *std::find_if( fs.begin(), fs.end(), canDecay );
       auto expandedRules       = rulesForDecay( it->name() );
       for ( auto& subTree : expandedRules )
       {
-        auto expanded_amplitude = replaceAll( nameToExpand, it->name(), subTree.name() );
-        newTmpParticles.emplace_back( Particle( expanded_amplitude), TotalCoupling( coupling, subTree) );
+        auto expanded_amplitude = particle.clone();
+        expanded_amplitude.expand( subTree.particle() ); 
+        newTmpParticles.emplace_back( Particle( expanded_amplitude.makeUniqueString() ), TotalCoupling( coupling, subTree) );
       }
     }
     rt = newTmpParticles;
-- 
2.43.0


From 4f8a7dda8769e32bdf3dc944ee20567a7c55e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:27 +0000
Subject: [PATCH 43/91] fix: decays with more particles than the final state do
 not match it

A decay matched if every particle of the final state was found in it, even if
it produced further particles, which then had no place in the event.
---
 src/AmplitudeRules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AmplitudeRules.cpp b/src/AmplitudeRules.cpp
index 3b6df9a..3959722 100644
--- a/src/AmplitudeRules.cpp
+++ b/src/AmplitudeRules.cpp
@@ -160,7 +160,7 @@ std::vector<std::pair<Particle, TotalCoupling>> AmplitudeRules::getMatchingRules
     for( const auto& [particle,coupling] : expanded )
     {
       auto p = Particle( particle.decayDescriptor(), type.finalStates() );
-      if( p.isStateGood() && 
+      if( p.isStateGood() && p.getFinalStateParticles().size() == type.size() &&
           std::find_if( rt.begin(), rt.end(), [p](const auto& x){ return x.first.decayDescriptor() == p.decayDescriptor(); } )
           == rt.end() 
         ) rt.emplace_back( p, coupling );
-- 
2.43.0


From 6631c9ee29401e0c4d002def7fac103145160b47 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:51:18 +0000
Subject: [PATCH 44/91] fix: a vector complex number made from a real one has
 no imaginary part

The constructor left the imaginary part uninitialised, so compiled vector
functions whose expression is real returned garbage there; making one from a
plain double (expressions of parameters only) was ambiguous and did not compile.
---
 AmpGen/Complex.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Complex.h b/AmpGen/Complex.h
index 6508b8f..e9e8bb5 100644
--- a/AmpGen/Complex.h
+++ b/AmpGen/Complex.h
@@ -2,6 +2,7 @@
 #define AMPGEN_COMPLEX_H 1 
 
 #include <complex>
+#include <type_traits>
 
 namespace AmpGen {
   template <typename real_t>
@@ -14,7 +15,9 @@ namespace AmpGen {
     // Complex( const float&   re, const float& im) : re(re), im(im) {}
     Complex( const std::complex<double>& f ) : re( f.real() ), im( f.imag() ) {}
     Complex( const std::complex<float>& f  ) : re( f.real() ), im( f.imag() ) {}
-    explicit Complex( const real_t& arg ) : re(arg) {};
+    explicit Complex( const real_t& arg ) : re(arg), im(0.) {};
+    template <typename arg_t, typename = std::enable_if_t<std::is_arithmetic<arg_t>::value && !std::is_same<arg_t, real_t>::value>>
+    explicit Complex( const arg_t& arg ) : re(arg), im(0.) {};
     Complex(const real_t& re, const double& im  ) : re(re), im(im) {} 
     // explicit Complex( const double& arg ) : re(arg) {};
     inline Complex operator+=(const Complex& rhs ); 
-- 
2.43.0


From d3cd9eb4c52a52581802e349eda3960763506cc0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:51:18 +0000
Subject: [PATCH 45/91] fix: bracket the expression of an alias in generated
 code

A product of an alias for a sum was generated without brackets, e.g. x*a+b for
x*(a+b).
---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 49edf95..8e759e0 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -242,7 +242,7 @@ MinuitParameterLink::MinuitParameterLink( MinuitParameter* param ) : m_parameter
 std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
-  if( as_expression != nullptr ) return as_expression->expression().to_string(resolver);
+  if( as_expression != nullptr ) return "(" + as_expression->expression().to_string(resolver) + ")";
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-- 
2.43.0


From 98c7a014f7c384f5e0d1a10a2962747a9a7b427c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:51:43 +0000
Subject: [PATCH 46/91] fix: distinct functions used as parameters are distinct
 expressions

LambdaExpressions were named after the type of the function only, so that common
sub-expressions of two functions of the same type (for example, made in one place
for different objects) were merged.
---
 AmpGen/Expression.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/AmpGen/Expression.h b/AmpGen/Expression.h
index 8ee7101..171b85f 100644
--- a/AmpGen/Expression.h
+++ b/AmpGen/Expression.h
@@ -88,6 +88,7 @@
   }
 
 #include <algorithm>
+#include <atomic>
 #include <complex>
 #include <iostream>
 #include <map>
@@ -214,13 +215,15 @@ namespace AmpGen
   class LambdaExpression : public IExpression {
     public: 
       template <typename function_type>
-      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>()) {}
+      LambdaExpression( const function_type& function) : m_function(function), m_name(type_string<function_type>() + "_" + std::to_string(nextID()) ) {}
       std::string to_string(const ASTResolver* resolver = nullptr) const override; 
       void resolve( ASTResolver& resolver) const override;
       operator Expression() const; 
       complex_t operator()() const override; 
       std::function<double(void)> m_function; 
       std::string m_name; 
+    private: 
+      static unsigned nextID(){ static std::atomic<unsigned> counter{0}; return counter++; }
   }; 
 
   /** @ingroup ExpressionEngine class Ternary 
-- 
2.43.0


From b66bb1098d00da37998d653969e421ce320e7dae Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:59:29 +0000
Subject: [PATCH 47/91] fix: conditions that are the same for all lanes select
 the right branch

A condition on parameters only is a plain bool in vector code: combined with a
vector condition, or choosing between a real and a complex value, it was
converted to the number 1, which is no mask, and the wrong branch was taken.
---
 AmpGen/simd/avx2d_types.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/AmpGen/simd/avx2d_types.h b/AmpGen/simd/avx2d_types.h
index 52560c7..46ea9df 100644
--- a/AmpGen/simd/avx2d_types.h
+++ b/AmpGen/simd/avx2d_types.h
@@ -69,6 +69,10 @@ namespace AmpGen {
     inline real_v operator^( const real_v& lhs, const real_v& rhs ) { return _mm256_xor_pd( lhs, rhs ); }
     inline real_v operator&&( const real_v& lhs, const real_v& rhs ) { return _mm256_and_pd( lhs, rhs ); }
     inline real_v operator||( const real_v& lhs, const real_v& rhs ) { return _mm256_or_pd( lhs, rhs ); }
+    inline real_v operator&&( const bool& lhs, const real_v& rhs ) { return lhs ? rhs : real_v(0.); }
+    inline real_v operator&&( const real_v& lhs, const bool& rhs ) { return rhs ? lhs : real_v(0.); }
+    inline real_v operator||( const bool& lhs, const real_v& rhs ) { return lhs ? real_v(_mm256_castsi256_pd( _mm256_set1_epi32( -1 ) )) : rhs; }
+    inline real_v operator||( const real_v& lhs, const bool& rhs ) { return rhs ? real_v(_mm256_castsi256_pd( _mm256_set1_epi32( -1 ) )) : lhs; }
     inline real_v operator!( const real_v& x ) { return x ^ _mm256_castsi256_pd( _mm256_set1_epi32( -1 ) ); }
     inline real_v operator<( const real_v& lhs, const real_v& rhs ) { return _mm256_cmp_pd( lhs, rhs, _CMP_LT_OS ); }
     inline real_v operator>( const real_v& lhs, const real_v& rhs ) { return _mm256_cmp_pd( lhs, rhs, _CMP_GT_OS ); }
@@ -152,6 +156,8 @@ namespace AmpGen {
     inline complex_v select(const real_v& mask, const real_v&   a, const complex_v& b ) { return complex_v( select(mask, a   , b.real()), select(mask, real_v(0.), b.imag()) ); }
     inline complex_v select(const real_v& mask, const complex_v& a, const real_v& b   ) { return complex_v( select(mask, a.real(), b )  , select(mask, a.imag(), real_v(0.)) ); }
     inline complex_v select(const bool& mask   , const complex_v& a, const complex_v& b ) { return mask ? a : b; }
+    inline complex_v select(const bool& mask   , const real_v& a, const complex_v& b ) { return mask ? complex_v(a, real_v(0.)) : b; }
+    inline complex_v select(const bool& mask   , const complex_v& a, const real_v& b ) { return mask ? a : complex_v(b, real_v(0.)); }
 
 #pragma omp declare reduction(+: real_v: \
 	omp_out = omp_out + omp_in)
-- 
2.43.0


From 9a0d4831e002c2ac00163bf89572039ccd36f525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:29 +0000
Subject: [PATCH 48/91] fix: constants that are not compiled in are transferred
 like other parameters

---
 src/ExpressionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index 8e759e0..ae9501c 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -259,7 +259,7 @@ void MinuitParameterLink::resolve( ASTResolver& resolver ) const
 {
   auto as_expression = dynamic_cast<const MinuitExpression*>( this->m_parameter );
   if( as_expression != nullptr ) return as_expression->expression().resolve(resolver);
-  if( m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
+  if( !resolver.enableCompileConstants() || m_parameter->flag() != Flag::CompileTimeConstant ) resolver.resolve(*this);
 }
 
 complex_t MinuitParameterLink::operator()() const 
-- 
2.43.0


From 5c50cb0c54d05f4a50894b6c1b820860af4320e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:29 +0000
Subject: [PATCH 49/91] fix: values built into generated code keep their
 precision

---
 src/ASTResolver.cpp            | 4 ++--
 src/CompiledExpressionBase.cpp | 2 +-
 src/ExpressionParser.cpp       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ASTResolver.cpp b/src/ASTResolver.cpp
index 7dcdfc0..2b90ea8 100644
--- a/src/ASTResolver.cpp
+++ b/src/ASTResolver.cpp
@@ -113,7 +113,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     auto it = m_mps->find(parameter.name());
     if( it != nullptr ){
       if( m_enable_compileTimeConstants && it->flag() == Flag::CompileTimeConstant ){
-        addResolvedParameter( &parameter, "("+std::to_string(it->mean()) +")" );
+        addResolvedParameter( &parameter, Constant( it->mean() ).to_string() );
       }
       else addResolvedParameter( &parameter, addCacheFunction<ParameterTransfer>( parameter.name(), it )  );
       return;
@@ -121,7 +121,7 @@ template <> void ASTResolver::resolve<Parameter>( const Parameter& parameter )
     DEBUG("Could not find parameter: " << parameter.name() << " amongst the MPS ");
   }
   else if( m_enable_compileTimeConstants ){
-    addResolvedParameter( &parameter, std::to_string( parameter.defaultValue() ) );
+    addResolvedParameter( &parameter, Constant( parameter.defaultValue() ).to_string() );
     return;
   }
   auto address = addCacheFunction<CacheTransfer>( parameter.name(), parameter.defaultValue() );
diff --git a/src/CompiledExpressionBase.cpp b/src/CompiledExpressionBase.cpp
index fd4ed52..02a357d 100644
--- a/src/CompiledExpressionBase.cpp
+++ b/src/CompiledExpressionBase.cpp
@@ -229,6 +229,6 @@ void CompiledExpressionBase::compileWithParameters( std::ostream& stream ) const
   tl.erase(tl.begin() + ( use_rto() ? 2 : 0 ) ); 
   stream << "extern \"C\" " << returnTypename() << " " << progName() << "_wParams" << "(" << fcnSignature(tl) << " ){" << std::endl;
   auto buf = externBuffer(); 
-  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return std::to_string(line); }) ) <<"};\n" ;
+  stream << "  double externalParameters [] = {" << (buf.size() == 0 ? "0" : vectorToString(buf,", ", [](auto& line){ return Constant(line).to_string(); }) ) <<"};\n" ;
   stream << "  return " << progName() << "( externalParameters, x0 ); \n}\n";
 }
diff --git a/src/ExpressionParser.cpp b/src/ExpressionParser.cpp
index ae9501c..b5780a5 100644
--- a/src/ExpressionParser.cpp
+++ b/src/ExpressionParser.cpp
@@ -246,7 +246,7 @@ std::string MinuitParameterLink::to_string(const ASTResolver* resolver) const
 
   if( resolver == nullptr ) return m_parameter->name();
   if( resolver->enableCompileConstants() && m_parameter != nullptr && m_parameter->flag () == Flag::CompileTimeConstant )
-    return std::to_string( m_parameter->mean() ); 
+    return Constant( m_parameter->mean() ).to_string(); 
   return resolver->resolvedParameter(this);
 
 }
-- 
2.43.0


From eb8228477739c4a1d55fe31fdaaa23edbc93db56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:39 +0000
Subject: [PATCH 50/91] fix: the lanes that pad a vectorised event list have no
 weight

---
 AmpGen/simd/utils.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/AmpGen/simd/utils.h b/AmpGen/simd/utils.h
index ce8498d..bb2b087 100644
--- a/AmpGen/simd/utils.h
+++ b/AmpGen/simd/utils.h
@@ -63,12 +63,16 @@ namespace AmpGen {
         template <>        struct is_vector_type <AVX::int_v>   : std::true_type {}; 
     #endif
     template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
-        const container_type& container, const functor_type& functor, unsigned offset=0, typename simd_type::scalar_type df =0.)
+        const container_type& container, const functor_type& functor, unsigned offset=0)
     {
       std::array<typename simd_type::scalar_type, simd_type::size> rv; 
-      if( df == 0. )
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : functor(container[container.size()-1]); 
-      else 
+      return simd_type( rv.data() );
+    } 
+    template <typename simd_type, typename container_type, typename functor_type> simd_type gather(
+        const container_type& container, const functor_type& functor, unsigned offset, typename simd_type::scalar_type df)
+    {
+      std::array<typename simd_type::scalar_type, simd_type::size> rv; 
       for( unsigned k = 0 ; k != simd_type::size; ++k ) rv[k] = offset + k < container.size() ? functor(container[offset+k]) : df; 
       return simd_type( rv.data() );
     } 
-- 
2.43.0


From cb30d10c26ad247d37e74f78f43332c8ea03eef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:39 +0000
Subject: [PATCH 51/91] fix: iterating over a vectorised event list stays
 inside it and keeps all modifications

---
 AmpGen/simd/iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/simd/iterator.h b/AmpGen/simd/iterator.h
index 3949a0a..6aa56e1 100644
--- a/AmpGen/simd/iterator.h
+++ b/AmpGen/simd/iterator.h
@@ -22,7 +22,7 @@ namespace AmpGen {
       if ( m_pos % simd_size == 0 )
       { 
         if constexpr(modifiable == true ) m_store->gather(m_buffer, (m_pos-1) / simd_size); 
-        m_buffer = m_store->scatter( m_pos );
+        if( m_pos < m_store->aligned_size() ) m_buffer = m_store->scatter( m_pos );
       }
       return *this;  
     }
@@ -30,7 +30,7 @@ namespace AmpGen {
     {
       if constexpr(modifiable == true)
       {
-        if(m_store != nullptr && m_pos % simd_size != 0 ){
+        if(m_store != nullptr && m_pos < m_store->aligned_size() ){
           m_store->gather(m_buffer, m_pos/simd_size); 
         }
       }
-- 
2.43.0


From 651ef90e64c5fb15bd416507c3600e498f7fa04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:39 +0000
Subject: [PATCH 52/91] fix: a cleared vectorised event list has no events

---
 src/EventListSIMD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventListSIMD.cpp b/src/EventListSIMD.cpp
index 9e07147..4359da3 100644
--- a/src/EventListSIMD.cpp
+++ b/src/EventListSIMD.cpp
@@ -209,7 +209,7 @@ TH2D* EventListSIMD::makeProjection( const Projection2D& projection, const Argum
 
 void EventListSIMD::clear() 
 { 
-  m_data.clear(); 
+  resize(0); 
 }
 
 const Event EventListSIMD::operator[]( const size_t& pos ) const 
-- 
2.43.0


From 4c44b416d006f887b762bffd1053aece3e08a9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:15 +0000
Subject: [PATCH 53/91] fix: the integral of an event list is not rounded to an
 integer

---
 src/EventList.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/EventList.cpp b/src/EventList.cpp
index 33e9069..8077be4 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -207,7 +207,7 @@ TH2D* EventList::makeProjection( const Projection2D& projection, const ArgumentP
 
 double EventList::integral() const
 {
-  return std::accumulate( std::begin(*this), std::end(*this), 0, [](double rv, const auto& evt){ return rv + evt.weight(); } );
+  return std::accumulate( std::begin(*this), std::end(*this), 0., [](double rv, const auto& evt){ return rv + evt.weight(); } );
 }
 
 void EventList::add( const EventList& evts )
-- 
2.43.0


From 823d37309905ea47eeb0c26af795f4970898cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:15 +0000
Subject: [PATCH 54/91] fix: an event list can be added to itself

---
 src/EventList.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/EventList.cpp b/src/EventList.cpp
index 8077be4..9e8b4bb 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -213,8 +213,9 @@ double EventList::integral() const
 void EventList::add( const EventList& evts )
 {
   unsigned s0 = m_data.size();  
-  m_data.resize(s0 + evts.size() ); 
-  for( unsigned i = 0 ; i != evts.size(); ++i )
+  unsigned s1 = evts.size();
+  m_data.resize(s0 + s1); 
+  for( unsigned i = 0 ; i != s1; ++i )
   {
     m_data[ s0 +i ] = evts[i]; 
     m_data[ s0 +i ].setIndex( s0+i);
-- 
2.43.0


From f611cc3bc420c8e8d45ae91b63f96b351ffeaa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:15 +0000
Subject: [PATCH 55/91] fix: events keep their position as index when others
 are removed from the list

---
 AmpGen/EventList.h | 1 +
 src/EventList.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/AmpGen/EventList.h b/AmpGen/EventList.h
index cf739ed..3ea78c9 100644
--- a/AmpGen/EventList.h
+++ b/AmpGen/EventList.h
@@ -149,6 +149,7 @@ namespace AmpGen
     {
       unsigned currentSize = size();
       m_data.erase( std::remove_if( m_data.begin(), m_data.end(), fcn ) , m_data.end() );
+      for( unsigned i = 0 ; i != m_data.size(); ++i ) m_data[i].setIndex(i);
       INFO("Filter retains " << size() << " / " << currentSize << " events");
     }
 
diff --git a/src/EventList.cpp b/src/EventList.cpp
index 9e8b4bb..58ae921 100644
--- a/src/EventList.cpp
+++ b/src/EventList.cpp
@@ -231,6 +231,7 @@ void EventList::erase(const std::vector<Event>::iterator& begin,
     const std::vector<Event>::iterator& end)
 {
   m_data.erase( begin, end );
+  for( unsigned i = 0 ; i != m_data.size(); ++i ) m_data[i].setIndex(i);
 }
 
 void EventList::reserve( const size_t& size ) 
-- 
2.43.0


From 224c826bc00cc3eaa3db5fc4465a87b38b5ba634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:15 +0000
Subject: [PATCH 56/91] fix: ids only match those of the event type if they are
 a permutation of them

---
 src/EventType.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/EventType.cpp b/src/EventType.cpp
index 8b0e524..194f1c6 100644
--- a/src/EventType.cpp
+++ b/src/EventType.cpp
@@ -247,12 +247,13 @@ std::function<bool(Event&, const std::vector<int>&)> EventType::automaticOrderin
   for( unsigned i = 0 ; i != m_particleNames.size(); ++i ) ids.push_back( ParticleProperties::get(m_particleNames[i])->pdgID() );
   auto matches = [](const auto& c1, const auto& c2 , unsigned sgn = +1)
   {
+    if( c1.size() != c2.size() ) return false;
     std::vector<bool> used( c1.size(), false );
     for(unsigned i = 0; i != c1.size(); ++i )
     {
       for( unsigned j = 0; j != c2.size(); ++j )
       {
-        if( c1[i] == sgn * c2[j] && ! used[j] ) used[j] = true;
+        if( c1[i] == sgn * c2[j] && ! used[j] ){ used[j] = true; break; }
       }
     }
     return std::all_of( std::begin(used), std::end(used), [](auto b) { return b; }  ) ;
-- 
2.43.0


From 6d76845c45b5615d127beaf34913b1486dd1245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:15 +0000
Subject: [PATCH 57/91] fix: events of a resized vectorised event list do not
 keep the weights of those before

---
 AmpGen/EventListSIMD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/EventListSIMD.h b/AmpGen/EventListSIMD.h
index db65cee..841402f 100644
--- a/AmpGen/EventListSIMD.h
+++ b/AmpGen/EventListSIMD.h
@@ -79,8 +79,8 @@ namespace AmpGen
     void resize( const unsigned nEvents )
     {
       m_data = Store<real_v, Alignment::AoS>(nEvents, m_eventType.eventSize());
-      m_weights.resize( aligned_size(), 1.f);
-      m_genPDF.resize( aligned_size(), 1.f );
+      m_weights.assign( nBlocks(), 1.f );
+      m_genPDF.assign( nBlocks(), 1.f );
     }
     const Event operator[]( const size_t&) const;
     std::array<Event, utils::size<real_v>::value> scatter(unsigned) const;
-- 
2.43.0


From b98098533c859a2d038ba9d363cb6fba5e887bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:59 +0000
Subject: [PATCH 58/91] fix: amplitudes of a polarised sum in flavour space are
 built from rules that outlive their tasks

---
 src/PolarisedSum.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 1d0c18b..dad0d70 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -98,12 +98,12 @@ PolarisedSum::PolarisedSum(const EventType& type,
     m_matrixElements.resize( r1.size() + r2.size() );
     for(unsigned i = 0 ; i != m_matrixElements.size(); ++i)
     {
-      tp.enqueue( [i, this, &r1, &r2] () mutable {
+      const auto& rule = i < r1.size() ? r1[i] : r2[i-r1.size()];
+      tp.enqueue( [i, this, isFirst = i < r1.size(), p = rule.first, coupling = rule.second] () mutable {
         Tensor thisExpression( Tensor::dim(2) );
         DebugSymbols syms;  
-        auto& [p,coupling] = i < r1.size() ? r1[i] : r2[i-r1.size()];
-        thisExpression[0] = i < r1.size() ? make_cse( p.getExpression(&syms) ) : 0;
-        thisExpression[1] = i < r1.size() ? 0 : make_cse( p.getExpression(&syms) ); 
+        thisExpression[0] = isFirst ? make_cse( p.getExpression(&syms) ) : 0;
+        thisExpression[1] = isFirst ? 0 : make_cse( p.getExpression(&syms) ); 
         this->m_matrixElements[i] = MatrixElement( 
             p, coupling, 
             CompiledExpression<void(complex_v*, const size_t*, const real_t*, const real_v*)>(
-- 
2.43.0


From d541c5f9cf73b8e8fdd8fb19e21264d607537fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 59/91] fix: the densities of an incoherent sum are normalised
 by its own integral

---
 AmpGen/CoherentSum.h   | 2 +-
 AmpGen/IncoherentSum.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index d9644bf..2bc42de 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -60,7 +60,7 @@ namespace AmpGen
     size_t size()                          const { return m_matrixElements.size(); }
     real_t getWeight()                     const { return m_weight; }
     real_t norm( const Bilinears& norms )  const;
-    real_t norm() const;
+    virtual real_t norm() const;
     real_t getNorm( const Bilinears& normalisations );
 
     complex_t norm( const size_t& x, const size_t& y ) const;
diff --git a/AmpGen/IncoherentSum.h b/AmpGen/IncoherentSum.h
index b64fe88..cff6169 100644
--- a/AmpGen/IncoherentSum.h
+++ b/AmpGen/IncoherentSum.h
@@ -57,7 +57,7 @@ namespace AmpGen
             \mathcal{N} = \int d\psi \varepsilon(\psi) \mathcal{P}(\psi) \approx \sum_i \frac{\mathcal{P}(\psi_i)}{\mathcal{P}^\prime(\psi_i)} 
           @f]
           where the sum is over a simulated sample, generated with PDF @f$\mathcal{P}^\prime(\psi)@f$. */
-      real_t norm() const;
+      real_t norm() const override;
       complex_t norm(const size_t& i, const size_t& j){ return i==j ? m_normalisations.get(i, i) : 0; }
       complex_t norm(const size_t& i) { return m_normalisations.get(i, i); }
       real_t norm( const Bilinears& norms ) const;
-- 
2.43.0


From e8686404cabf8f666e544b269c6a9c38941a830d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 60/91] fix: models only release the event lists that they have
 made themselves

---
 AmpGen/CoherentSum.h  | 2 +-
 AmpGen/PolarisedSum.h | 2 +-
 src/CoherentSum.cpp   | 1 +
 src/PolarisedSum.cpp  | 1 +
 4 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/AmpGen/CoherentSum.h b/AmpGen/CoherentSum.h
index 2bc42de..517af8c 100644
--- a/AmpGen/CoherentSum.h
+++ b/AmpGen/CoherentSum.h
@@ -79,7 +79,7 @@ namespace AmpGen
     #if ENABLE_AVX
       void setEvents( const EventList& list) { 
         WARNING("Setting events from a AoS container, will need to make a copy");
-        m_ownEvents = true; setEvents( *(new EventListSIMD(list)) ) ; } 
+        setEvents( *(new EventListSIMD(list)) ) ; m_ownEvents = true; } 
       void setMC    ( const EventList& list) { 
         WARNING("Setting integration events from a AoS container, will need to make a copy");
         setMC( *(new EventListSIMD(list)) ) ; } 
diff --git a/AmpGen/PolarisedSum.h b/AmpGen/PolarisedSum.h
index 61b18b5..5be2144 100644
--- a/AmpGen/PolarisedSum.h
+++ b/AmpGen/PolarisedSum.h
@@ -43,7 +43,7 @@ namespace AmpGen
       void setEvents(EventList_type&);
       void setMC(EventList_type&);
       #if ENABLE_AVX
-        void setEvents(EventList& evts){ m_ownEvents = true; setEvents( *new EventList_type(evts)) ; };
+        void setEvents(EventList& evts){ setEvents( *new EventList_type(evts)) ; m_ownEvents = true; };
         void setMC(EventList& evts){ setMC( *new EventList_type(evts)) ; };
         double operator()(const double*, const unsigned) const; 
       #endif
diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index a81703c..d215062 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -231,6 +231,7 @@ void CoherentSum::setEvents( const EventList_type& list )
   for( auto& me : m_matrixElements ){ DEBUG("Registering: " << me.name() ) ; }
   if( m_ownEvents && m_events != nullptr ) delete m_events; 
   m_events = &list;
+  m_ownEvents = false;
   m_cache.allocate(m_events, m_matrixElements); 
 }
 
diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index dad0d70..942af68 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -213,6 +213,7 @@ void   PolarisedSum::setEvents( PolarisedSum::EventList_type& events )
   reset();
   if( m_events != nullptr && m_ownEvents ) delete m_events; 
   m_events = &events;
+  m_ownEvents = false;
   m_cache.allocate( m_events, m_matrixElements); 
   m_pdfCache.allocate(&m_cache, m_probExpression); 
 }
-- 
2.43.0


From b43d7f0e8ddf86b6520ed7533a3e43568ba33309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 61/91] fix: a coherent sum without its integration sample does
 not keep the norm of it

---
 src/CoherentSum.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index d215062..10d8279 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -221,6 +221,7 @@ void CoherentSum::reset( bool resetEvents )
   if ( resetEvents ){ 
     m_events = nullptr;
     m_integrator = Integrator();
+    m_norm = 1;
   }
 }
 
-- 
2.43.0


From 674e6093d6f511288c2b6bd72bc2bb4d9b4dd6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 62/91] fix: polarised sums can be prepared before they are
 given events

---
 src/PolarisedSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PolarisedSum.cpp b/src/PolarisedSum.cpp
index 942af68..fd4d09c 100644
--- a/src/PolarisedSum.cpp
+++ b/src/PolarisedSum.cpp
@@ -179,7 +179,7 @@ void   PolarisedSum::prepare()
   {
     if( m_nCalls % 10000 == 0 ) debug_norm();
   }
-  m_pdfCache.update(m_probExpression); 
+  if( m_events != nullptr ) m_pdfCache.update(m_probExpression); 
  // INFO( std::setprecision(15) << " " << m_norm << " " << m_pdfCache[0] );
   m_nCalls++; 
 }
-- 
2.43.0


From 6eae93a6d54af96ebdeadf3852b8b033285645ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:42 +0000
Subject: [PATCH 63/91] fix: likelihoods of scalar event lists count each event
 once when vectorised

---
 AmpGen/SumPDF.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/AmpGen/SumPDF.h b/AmpGen/SumPDF.h
index 03e7ad6..6cd723c 100644
--- a/AmpGen/SumPDF.h
+++ b/AmpGen/SumPDF.h
@@ -62,6 +62,8 @@ namespace AmpGen
       fill_likelihood( tmp.data() );
       KahanSum<real_v> sum; 
       for(unsigned block = 0 ; block != tmp.size(); ++block ) sum += tmp[block]; 
+      // events of scalar lists fill all of the elements with the same value
+      if constexpr( std::is_same<eventListType,EventList>::value ) return -2 * utils::get<0>(sum());
       auto rt = -2 * utils::sum_elements(sum());
       return rt; 
     } 
-- 
2.43.0


From 70fa19e8a6039f2529618b0fa6a1df3c3e583aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:45 +0000
Subject: [PATCH 64/91] fix: Generator::generate from a model fills a list that
 events can be added to

---
 AmpGen/Generator.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/AmpGen/Generator.h b/AmpGen/Generator.h
index b848a86..16b7697 100644
--- a/AmpGen/Generator.h
+++ b/AmpGen/Generator.h
@@ -161,10 +161,8 @@ namespace AmpGen
         template <typename pdf_t, typename = typename std::enable_if<!std::is_integral<pdf_t>::value>::type>
           EventList generate(pdf_t& pdf, const size_t& nEvents )
           {
-            eventlist_t evts( m_eventType );
-            fillEventList( pdf, evts, nEvents );
             EventList output( m_eventType );
-            for( const auto& event : evts ) output.emplace_back( event );
+            fillEventList( pdf, output, nEvents );
             return output; 
           }
         EventList generate(const size_t& nEvents)
-- 
2.43.0


From e8e09b57acb13ba3d5127db376ce7c4bfce09431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 65/91] fix: progress of a generation into a list that already
 has events

---
 AmpGen/Generator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/Generator.h b/AmpGen/Generator.h
index 16b7697..623bf56 100644
--- a/AmpGen/Generator.h
+++ b/AmpGen/Generator.h
@@ -144,7 +144,7 @@ namespace AmpGen
             /// if constexpr ( std::is_same<phaseSpace_t, TreePhaseSpace>::value ) maxProb = 0; 
             t_acceptReject.stop(); 
             double efficiency = 100. * ( list.size() - previousSize ) / (double)m_generatorBlock;
-            pb.print( double(list.size()) / double(N), " ε[gen] = " + mysprintf("%.4f",efficiency) + "% , " + std::to_string(int(t_total.count()/1000.))  + " seconds" );
+            pb.print( double(list.size() - size0) / double(N), " ε[gen] = " + mysprintf("%.4f",efficiency) + "% , " + std::to_string(int(t_total.count()/1000.))  + " seconds" );
             if ( list.size() == previousSize ) {
               ERROR( "No events generated, PDF: " << type_string<pdf_t>() << " is likely to be malformed" );
               break;
-- 
2.43.0


From 3c50c1cf98d940191c320dca515655ad03e99c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:17 +0000
Subject: [PATCH 66/91] fix: TreePhaseSpace of several chains uses the default
 random generator when none is given

---
 src/TreePhaseSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreePhaseSpace.cpp b/src/TreePhaseSpace.cpp
index 5782997..0b8d514 100644
--- a/src/TreePhaseSpace.cpp
+++ b/src/TreePhaseSpace.cpp
@@ -48,7 +48,7 @@ TreePhaseSpace::TreePhaseSpace(const std::vector<Particle>& decayChains, const E
 //   add_decay_chain( Particle( decayChains[0].quasiStableTree() ) );
   
   initialise_weights(); 
-  setRandom(rndm);
+  setRandom(m_rand);
   DEBUG("w(max) = " << m_wmax << "#chains: " << m_gen.size() );  
 }
 
-- 
2.43.0


From 74cfcc5056923cc530cd7f31294d9445a102d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:22 +0000
Subject: [PATCH 67/91] fix: TreePhaseSpace of several chains accepts with the
 largest of their maximum weights

---
 src/TreePhaseSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/TreePhaseSpace.cpp b/src/TreePhaseSpace.cpp
index 0b8d514..ea96af3 100644
--- a/src/TreePhaseSpace.cpp
+++ b/src/TreePhaseSpace.cpp
@@ -55,7 +55,7 @@ TreePhaseSpace::TreePhaseSpace(const std::vector<Particle>& decayChains, const E
 void TreePhaseSpace::initialise_weights() 
 {
   auto weights = std::vector<double>( m_gen.size(), 1./m_gen.size() );
-  m_wmax = (*std::max_element( m_gen.begin(), m_gen.end(), [](auto a, auto b){ return a->maxWeight() > b->maxWeight();} )) -> maxWeight(); 
+  m_wmax = (*std::max_element( m_gen.begin(), m_gen.end(), [](auto a, auto b){ return a->maxWeight() < b->maxWeight();} )) -> maxWeight(); 
   m_dice = DiscreteDistribution(weights); 
 }
 
-- 
2.43.0


From 171526aa8bc8f116d5bc19fea192baa68ef9685e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:53 +0000
Subject: [PATCH 68/91] fix: square roots of negative real numbers in
 vectorised complex arithmetic

The sign of a vanishing imaginary part was taken as negative, so that
sqrt(-4+0i) was -2i in a vector register and +2i for a scalar.
---
 AmpGen/simd/avx2d_types.h | 2 +-
 AmpGen/simd/avx2f_types.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/AmpGen/simd/avx2d_types.h b/AmpGen/simd/avx2d_types.h
index 46ea9df..b2c1672 100644
--- a/AmpGen/simd/avx2d_types.h
+++ b/AmpGen/simd/avx2d_types.h
@@ -122,7 +122,7 @@ namespace AmpGen {
 
     inline real_v select(const real_v& mask, const real_v& a, const real_v& b ) { return _mm256_blendv_pd( b, a, mask ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; }
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v >= 0., +1., -1. ); }
     inline real_v conj( const real_v& v ) { return v; }
     
     inline real_v atan2( const real_v& y, const real_v& x ){
diff --git a/AmpGen/simd/avx2f_types.h b/AmpGen/simd/avx2f_types.h
index 7202250..c949b76 100644
--- a/AmpGen/simd/avx2f_types.h
+++ b/AmpGen/simd/avx2f_types.h
@@ -104,7 +104,7 @@ namespace AmpGen {
     inline real_v abs   ( const real_v& v ) { return v & _mm256_castsi256_ps( _mm256_set1_epi32( 0x7FFFFFFF ) ); }
     inline real_v select(const real_v& mask, const real_v& a, const real_v& b ) { return _mm256_blendv_ps( b, a, mask ); }
     inline real_v select(const bool& mask   , const real_v& a, const real_v& b ) { return mask ? a : b; } 
-    inline real_v sign  ( const real_v& v){ return select( v > 0., +1., -1. ); }
+    inline real_v sign  ( const real_v& v){ return select( v >= 0., +1., -1. ); }
     inline real_v fmadd ( const real_v& a, const real_v& b, const real_v& c ) { return _mm256_fmadd_ps(a, b, c); }
     inline real_v remainder( const real_v& a, const real_v& b ){ return a - real_v(_mm256_round_ps(a/b, _MM_FROUND_TO_NEG_INF)) * b; }
     inline real_v atan2( const real_v& y, const real_v& x ){ 
-- 
2.43.0


From b0aba61118f79f3894fdff121666f2968d3e2776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:53 +0000
Subject: [PATCH 69/91] fix: to_int of single precision registers truncates

Indices were rounded to nearest, other than int() and other than in
double precision registers, so that gather read the following element.
---
 AmpGen/simd/avx2f_types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/simd/avx2f_types.h b/AmpGen/simd/avx2f_types.h
index c949b76..449e8b6 100644
--- a/AmpGen/simd/avx2f_types.h
+++ b/AmpGen/simd/avx2f_types.h
@@ -49,7 +49,7 @@ namespace AmpGen {
       inline real_v operator-=(const real_v& rhs ); 
       inline real_v operator*=(const real_v& rhs ); 
       inline real_v operator/=(const real_v& rhs ); 
-      inline __m256i to_int() const { return _mm256_cvtps_epi32(data); }
+      inline __m256i to_int() const { return _mm256_cvttps_epi32(data); }
     };
     
     inline real_v operator+( const real_v& lhs, const real_v& rhs ) { return _mm256_add_ps(lhs, rhs); }
-- 
2.43.0


From e1494486491841ad58198c3c1ae26dc9bc58b600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:49 +0000
Subject: [PATCH 70/91] fix: normalised barrier factor for L=4

The numerator mixed the momentum of the event with that of the reference
point, so that the factor (and running widths of G waves) were wrong
everywhere except at the reference point.
---
 src/Lineshapes.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes.cpp b/src/Lineshapes.cpp
index 7406c7d..6f99a01 100644
--- a/src/Lineshapes.cpp
+++ b/src/Lineshapes.cpp
@@ -32,7 +32,7 @@ Expression AmpGen::BlattWeisskopf_Norm( const Expression& ze, const Expression&
     case 1: return (1+z0) / (1+z);
     case 2: return (z0*z0 + 3*z0 + 9 ) / (z*z + 3*z + 9);
     case 3: return (z0*fpow(z0-15,2) + 9*fpow( 2*z0 -5,2 ) ) / (z*fpow(z-15,2) + 9*fpow( 2*z -5,2 ) );
-    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z*fpow(2*z-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
+    case 4: return (fpow(z0*z0-45*z0+105, 2)+25*z0*fpow(2*z0-21,2)) / (fpow(z*z-45*z+105, 2)+25*z*fpow(2*z-21,2) );
     default : 
       ERROR("Barrier factors not for implemented for L>4");
       return 0;
-- 
2.43.0


From fecf321eed12bd9b7c41b2a3e1da78fe3560cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:49 +0000
Subject: [PATCH 71/91] fix: splines at knots that are not exactly
 representable

The interval came from a rounded quotient and the position inside of it
from an exact remainder. At a knot the two could disagree, and the spline
returned the value of the next knot.
---
 src/Spline.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Spline.cpp b/src/Spline.cpp
index f32a739..b59511a 100644
--- a/src/Spline.cpp
+++ b/src/Spline.cpp
@@ -64,8 +64,10 @@ Expression Spline::eval(DebugSymbols* db) const
 {
   Expression x   = make_cse(m_x);
   double spacing = ( m_max - m_min ) / ( (double)m_nKnots - 1. );
-  Expression dx  = Fmod( x - m_min, spacing );
-  Expression bin = ( x - m_min ) / spacing;
+  Expression pos = make_cse( ( x - m_min ) / spacing );
+  Expression rem = make_cse( Fmod( pos, 1. ) );
+  Expression dx  = rem * spacing;
+  Expression bin = pos - rem + 0.5; // half-integer, as the address is truncated
   Expression continuedValue            = m_points[m_nKnots-1];
 
   Expression returnValue = Ternary( x > m_min && x < m_max,
-- 
2.43.0


From c7a2a77a503231e368f888a7732e703280223e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:49 +0000
Subject: [PATCH 72/91] fix: splines at their first knot

At the lower end of the range a spline returned the value of its last
knot.
---
 src/Spline.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Spline.cpp b/src/Spline.cpp
index b59511a..9258f90 100644
--- a/src/Spline.cpp
+++ b/src/Spline.cpp
@@ -70,7 +70,7 @@ Expression Spline::eval(DebugSymbols* db) const
   Expression bin = pos - rem + 0.5; // half-integer, as the address is truncated
   Expression continuedValue            = m_points[m_nKnots-1];
 
-  Expression returnValue = Ternary( x > m_min && x < m_max,
+  Expression returnValue = Ternary( x >= m_min && x < m_max,
       m_points[bin] + ( ( m_points[bin + 1] - m_points[bin] ) / spacing 
         - ( m_points[bin + 1 + m_nKnots] + 2 * m_points[bin+m_nKnots] ) * spacing / 6. ) * dx 
       + m_points[bin+m_nKnots] * dx * dx / 2. 
-- 
2.43.0


From b38a92bccb8648f6fdd3b62c7a0a50205c87e919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:49 +0000
Subject: [PATCH 73/91] fix: adding to a compensated sum by value

operator+ took the correction with the sign opposite to the one that
operator+= and the value of the sum use.
---
 AmpGen/KahanSum.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/AmpGen/KahanSum.h b/AmpGen/KahanSum.h
index 25b5e8b..c9dc125 100644
--- a/AmpGen/KahanSum.h
+++ b/AmpGen/KahanSum.h
@@ -34,11 +34,8 @@ namespace AmpGen {
   template <typename T> 
     KahanSum<T> operator+( const KahanSum<T>& l, const T& var )
     {
-      KahanSum<T> rt; 
-      T y = var - l.cor;
-      T t = l.sum + y;
-      rt.cor = (t-l.sum)-y; 
-      rt.sum = t;
+      KahanSum<T> rt = l; 
+      rt += var;
       return rt;
     }
 
-- 
2.43.0


From 52e70c3b864024bf905ff016873e7e6be27ecada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:27 +0000
Subject: [PATCH 74/91] fix: compensated sums are compensated in the default
 build

With the options the library is built with (-ffast-math
-fno-finite-math-only) the compiler reassociates sums, which removes the
compensation, while the check of the header for that is not triggered.
---
 AmpGen/KahanSum.h | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/AmpGen/KahanSum.h b/AmpGen/KahanSum.h
index c9dc125..136bb8a 100644
--- a/AmpGen/KahanSum.h
+++ b/AmpGen/KahanSum.h
@@ -7,6 +7,17 @@
 #include "AmpGen/simd/utils.h"
 
 namespace AmpGen {
+  namespace detail {
+    /// Hides the origin of a value from the optimiser, as rounding errors vanish identically if sums can be reassociated
+    template <typename T> inline void hide_origin( T& value ){ __asm__ volatile( "" : "+m"(value) ); }
+    /// Returns the rounding error of total = a + b, where a is the larger one of the two
+    template <typename T> inline T rounding_error( const T& total, const T& a, const T& b )
+    {
+      T rt = a - total;
+      hide_origin(rt);
+      return rt + b;
+    }
+  }
   /** @class KahanSum 
     @brief Implements Kahan summation for better precision with (repeated) floating point addition
     */
@@ -16,15 +27,14 @@ namespace AmpGen {
       T cor = 0.;
       KahanSum& operator+=( const T& var )
       {
-        
         T t = sum + var;
+        detail::hide_origin(t);
         if constexpr( utils::is_vector_type<T>::value )
         { 
-          cor += select( abs(sum) >= abs(var), (sum-t)+var, (var-t) + sum ); 
+          cor += select( abs(sum) >= abs(var), detail::rounding_error(t, sum, var), detail::rounding_error(t, var, sum) ); 
         }
         else {
-         
-          cor += std::abs(sum) >= std::abs(var) ?  (sum-t)+var :  (var-t) + sum; 
+          cor += std::abs(sum) >= std::abs(var) ? detail::rounding_error(t, sum, var) : detail::rounding_error(t, var, sum); 
         }
         sum = t;
         return *this; 
@@ -51,21 +61,25 @@ namespace AmpGen {
     for( auto& input : container )
     {
       T t = sum + input;
+      detail::hide_origin(t);
       if ( std::fabs(sum) >= std::fabs(input) ) 
       {
-        c = (sum - t) + input;
+        c = detail::rounding_error(t, sum, input);
       }
-      else c = (input - t) + sum;
+      else c = detail::rounding_error(t, input, sum);
       sum = t;
       t = cs + c;
+      detail::hide_origin(t);
       if ( std::fabs(cs) >= std::fabs(c) )
-        cc = (cs - t) + c;
+        cc = detail::rounding_error(t, cs, c);
       else
-        cc = (c - t) + cs;
+        cc = detail::rounding_error(t, c, cs);
       cs = t;
       ccs = ccs + cc;
     }
-    return sum + cs + ccs;
+    T total = sum + cs;
+    detail::hide_origin(total);
+    return total + ccs;
   }
 }
 
-- 
2.43.0


From 7cd39976b670e6856448464fd3e36c7b294dca2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:38 +0000
Subject: [PATCH 75/91] fix: antifermion couplings F_FS_S1 and F_VF_D1 project
 onto antifermion states

---
 src/FermionVertices.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index e6b25cf..9c45464 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -270,7 +270,7 @@ DEFINE_VERTEX( F_FS_SR )
   return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
 }
 
-DEFINE_VERTEX( F_FS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
+DEFINE_VERTEX( F_FS_S1 ){ return Spin1hbProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
 
 DEFINE_VERTEX( F_FS_P1 )
 {
@@ -304,7 +304,7 @@ DEFINE_VERTEX( F_VF_P3 ) //A5
 
 DEFINE_VERTEX( F_VF_D1 )
 {
-  Tensor proj   = Spin1hProjector(P);
+  Tensor proj   = Spin1hbProjector(P);
   Tensor gt     = gamma_twiddle(P);
   Tensor L      = Orbital_DWave(P,Q)(-mu,-nu) * V1(nu); 
   return proj( a, b ) * gt(mu,b,c) * L(-mu) * V2(c) ;
-- 
2.43.0


From a94c0aa6c31a3ec07a21d2e5cc873941e0f564e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:38 +0000
Subject: [PATCH 76/91] fix: chiral fermion-scalar couplings act on the fermion
 daughter

---
 src/FermionVertices.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 9c45464..3306625 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -84,14 +84,14 @@ DEFINE_VERTEX( f_Vf_SR )
 DEFINE_VERTEX( f_fS_SL )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( f_fS_SR )
 { 
   Tensor proj = Spin1hProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( f_fS_S1 ){ return Spin1hProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
@@ -260,14 +260,14 @@ DEFINE_VERTEX( F_VF_SR )
 DEFINE_VERTEX( F_FS_SL )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) - Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 
 DEFINE_VERTEX( F_FS_SR )
 { 
   Tensor proj = Spin1hbProjector(P);
-  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V2(c);
+  return proj(a, b) * ( Identity(4) + Gamma[4] )(b,c)* V1(c) * V2[0];
 }
 
 DEFINE_VERTEX( F_FS_S1 ){ return Spin1hbProjector(P)(a,b) * Gamma[4](b,c) * V1(c) * V2[0];}
-- 
2.43.0


From 7737d44a73659c67ac5b36242cf87db6cd887a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:38 +0000
Subject: [PATCH 77/91] fix: couplings with a scalar daughter are linear in its
 amplitude

---
 src/FermionVertices.cpp | 12 ++++++------
 src/Vertex.cpp          |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/FermionVertices.cpp b/src/FermionVertices.cpp
index 3306625..fd08f5c 100644
--- a/src/FermionVertices.cpp
+++ b/src/FermionVertices.cpp
@@ -28,7 +28,7 @@ DEFINE_VERTEX( f_fS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -140,7 +140,7 @@ DEFINE_VERTEX( r_fS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -153,7 +153,7 @@ DEFINE_VERTEX( r_fS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
@@ -204,7 +204,7 @@ DEFINE_VERTEX( F_FS_P )
   ADD_DEBUG_TENSOR( P, db );
   ADD_DEBUG_TENSOR( Q, db );
   ADD_DEBUG_TENSOR( L, db );
-  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d);
+  Tensor t      = proj(a, b) * Gamma[4](b,c) * slash(L)(c,d) * V1(d) * V2[0];
   return t; 
 }
 
@@ -316,7 +316,7 @@ DEFINE_VERTEX( R_FS_P )
   Tensor L = Orbital_PWave(P,Q);
   L.st();
   Tensor F = Spin1hbProjector(P);
-  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d); 
+  Tensor V = ( (-1) * L(nu) * F(a,d) + (1./3.) * F(a,b) * gamma_twiddle(P)(nu,b,c) * slash(L)(c,d) ) * V1(d) * V2[0]; 
   V.st();
   return V;
 }
@@ -329,7 +329,7 @@ DEFINE_VERTEX( R_FS_D )
   L.st(true);
   Expression L2 = make_cse(dot(L,L));
   Tensor gt = gamma_twiddle(P);
-  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d); 
+  Tensor rt =  ( L(mu) * F(a,b) * slash(L)(b,c) - (L2/3.) * F(a,b) * gt(mu,b,c) ) * Gamma[4](c,d) * V1(d) * V2[0]; 
   rt.st();
   return rt;
 }
diff --git a/src/Vertex.cpp b/src/Vertex.cpp
index e6ce10f..b9ad3cb 100644
--- a/src/Vertex.cpp
+++ b/src/Vertex.cpp
@@ -295,7 +295,7 @@ DEFINE_VERTEX( V_TS_D )
 {
   Tensor L        = ( -1 ) * Orbital_PWave( P, Q );
   Tensor coupling = LeviCivita()( -mu, -nu, -alpha, -beta ) * P( nu ) * Q( alpha );
-  return coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha );
+  return coupling( -mu, -nu ) * V1( nu, alpha ) * L( -alpha ) * V2[0];
 }
 
 DEFINE_VERTEX( S_fF_S ) { return Bar(V2)(a) * V1(a); }
-- 
2.43.0


From f58a8a7bf9a102138c90655231cb15bf83f5a64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:38 +0000
Subject: [PATCH 78/91] fix: helicity states of particles moving along the
 negative z axis

---
 src/Particle.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index bbe8f64..6bb9fa1 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -560,9 +560,10 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       Expression invPT2 = make_cse(Ternary( pX*pX + pY*pY > 1e-6, 1./(pX*pX+pY*pY), 0 ));
       Expression invP   = make_cse(Ternary( pP            > 1e-6, 1./pP,0));
       Expression pZoverP = make_cse(Ternary( pP > 1e-6, pZ/pP, 1) );
+      Expression pZoverPy = make_cse(Ternary( pX*pX + pY*pY > 1e-6, pZoverP, 1) ); // limit of zero azimuthal angle
       Expression f = (pP-pZ)*invPT2;
-      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverP - 1i*z *pX*f*invP, z*invP           , 0.  }); 
-      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverP - 1i*zb*pX*f*invP,-zb*invP          , 0.  });
+      if(polState ==  1) return N * Tensor({-pZoverP + 1i*z *pY*f*invP, -1i*pZoverPy - 1i*z *pX*f*invP, z*invP           , 0.  }); 
+      if(polState == -1) return N * Tensor({ pZoverP + 1i*zb*pY*f*invP, -1i*pZoverPy - 1i*zb*pX*f*invP,-zb*invP          , 0.  });
       if(polState ==  0) return     Tensor({pX*pE*invP/m    , pY*pE*invP/m       , pZoverP*pE/m, pP/m}); 
     }
     if( m_spinBasis == spinBasis::Dirac ){
@@ -579,8 +580,9 @@ Tensor Particle::externalSpinTensor(const int& polState, DebugSymbols* db ) cons
       std::array<Tensor,2> xi;
       Expression aligned = make_cse( fcn::abs(pP + pZ) < 1e-6 ) ;
       Expression n       = 1/fcn::sqrt( 2 * pP*(pP+pZ) );
-      xi[0] = Tensor( { Ternary( aligned, 1, n * ( pP + pZ ) )      , Ternary( aligned, 0, n * ( pX + 1i * pY) ) } );
-      xi[1] = Tensor( { Ternary( aligned, 0, n * ( -pX + 1i * pY )) , Ternary( aligned, 1, n * ( pP + pZ ) ) } );
+      Expression atRest  = make_cse( Ternary( pP < 1e-6, 1, 0 ) );
+      xi[0] = Tensor( { Ternary( aligned, atRest  , n * ( pP + pZ ) )      , Ternary( aligned, 1-atRest, n * ( pX + 1i * pY) ) } );
+      xi[1] = Tensor( { Ternary( aligned, atRest-1, n * ( -pX + 1i * pY )) , Ternary( aligned, atRest  , n * ( pP + pZ ) ) } );
       Expression N = make_cse( fcn::sqrt((pE+m)/(2*m) ));
       Expression k = pP * polState / ( pE + m );
       int ind = polState == +1 ? 0 : 1;
-- 
2.43.0


From 69ed47fdbc33d25ae8223d0e22d4134b4f946f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:26 +0000
Subject: [PATCH 79/91] fix: identical particles are exchanged together with
 their polarisations

---
 src/Particle.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Particle.cpp b/src/Particle.cpp
index 6bb9fa1..85bf4e8 100644
--- a/src/Particle.cpp
+++ b/src/Particle.cpp
@@ -445,9 +445,14 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
     setOrdering( ordering );
     props[ordering] = make_cse(propagator(db)); 
   }
+  std::vector<int> polStates; 
+  std::transform(fsp.begin(), fsp.end(), std::back_inserter(polStates), [](const auto& p){ return p->polState(); } );
+  auto setPolarisation = [](const auto& p, const auto& state){ if( p->polState() != state ) p->setPolarisationState(state); };
   for(const auto& ordering : orderings){
     auto exchangeParity = minSwaps( ordering, exchangeParities );   
     setOrdering( ordering );
+    // a particle is exchanged together with its polarisation 
+    for( size_t i = 0 ; i != fsp.size(); ++i ) setPolarisation( fsp[i], polStates[ordering[i]] );
     Expression spinFactor = 1; 
     if( includeSpin && m_spinFormalism == spinFormalism::Covariant ){
       Tensor st = spinTensor(db);
@@ -487,6 +492,7 @@ Expression Particle::getExpression( DebugSymbols* db, const std::vector<int>& st
     else              total = total + fcn::conj(ls) * ls;
     if(!doSymmetrisation) break;
   }
+  for( size_t i = 0 ; i != fsp.size(); ++i ) setPolarisation( fsp[i], polStates[i] );
   ADD_DEBUG( total, db );
   double nPermutations = doSymmetrisation ? orderings.size() : 1;
   if ( sumAmplitudes )
-- 
2.43.0


From ab460556e21e5287c81c6ef83ba16b9dcc1d6785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:42 +0000
Subject: [PATCH 80/91] fix: rotation functions of a particle flying along the
 z axis

The azimuthal phase of such a particle is not defined and was 0/0, so that
the amplitude was NaN. Use the same convention as wickTransform.
---
 src/Wigner.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Wigner.cpp b/src/Wigner.cpp
index fddf057..32f2132 100644
--- a/src/Wigner.cpp
+++ b/src/Wigner.cpp
@@ -141,8 +141,8 @@ std::pair<Expression, Expression> angCoordinates(const Tensor& P, DebugSymbols*
 {
   Expression pz = make_cse( P[2] / sqrt( P[0]*P[0] + P[1] * P[1] + P[2]*P[2] ) );  
   Expression pt2 = make_cse( P[0]*P[0] + P[1]*P[1] );
-  Expression px = P[0] / sqrt(pt2);
-  Expression py = P[1] / sqrt(pt2);
+  Expression px = Ternary( pt2 > 1e-15, P[0] / sqrt(pt2), 1 );
+  Expression py = Ternary( pt2 > 1e-15, P[1] / sqrt(pt2), 0 );
   return {pz, make_cse(px + 1i*py)};
 } 
 
-- 
2.43.0


From a3ccc93d8381a1f0fbc5f93056bfa82d1ac20f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:19 +0000
Subject: [PATCH 81/91] fix: a binning built from an event list with an
 argument pack keeps its nodes

---
 src/BinDT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 9d60ebb..80c9d34 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -99,7 +99,7 @@ BinDT::BinDT( const ArgumentPack& args )
 
 BinDT::BinDT( const EventList& events, const ArgumentPack& args ) : BinDT(args) 
 {
-  makeNodes( events.begin(), events.end() );
+  m_top = makeNodes( events.begin(), events.end() );
 }
 
 void BinDT::readFromStream( std::istream& stream )
-- 
2.43.0


From 0b035f4631bdb0d65f6ab339db868beb54062dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:21 +0000
Subject: [PATCH 82/91] fix: reading a binning replaces the bins of the
 previous one

---
 src/BinDT.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BinDT.cpp b/src/BinDT.cpp
index 80c9d34..9cef48a 100644
--- a/src/BinDT.cpp
+++ b/src/BinDT.cpp
@@ -107,6 +107,7 @@ void BinDT::readFromStream( std::istream& stream )
   std::map<std::string, std::pair<std::string, std::shared_ptr<INode>>> nodes;
   std::string line;
   std::string topAddress = "";
+  m_endNodes.clear();
   while ( getline( stream, line ) ) {
     if( line == "end" ) break; 
     auto tokens = split( line, ' ' );
-- 
2.43.0


From 5c514b7be17b7691cbdbee203ea1d0a4f1591b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 83/91] fix: barrier factor of the dispersive D-wave phase
 space

The denominator of the squared Blatt-Weisskopf factor with L=2 is z^2+3z+9;
it was z^2+27z.
---
 src/Lineshapes/CoupledChannel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Lineshapes/CoupledChannel.cpp b/src/Lineshapes/CoupledChannel.cpp
index a052762..bc63708 100644
--- a/src/Lineshapes/CoupledChannel.cpp
+++ b/src/Lineshapes/CoupledChannel.cpp
@@ -100,7 +100,7 @@ namespace {
   {
     if constexpr( L == 0 )      return expression_type(1);
     else if constexpr( L == 1 ) return expression_type( 2 * z / ( 1 + z )  ); 
-    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z * 9 ) ); 
+    else if constexpr( L == 2 ) return expression_type( 13 * z * z / ( z*z + 3*z + 9 ) ); 
     else if constexpr( L == 3 ) return expression_type( 277  * z * z * z  / (z*(z-15)*(z-15) + 9* ( 2 * z - 5 ) * (2*z-5 ) ) );  
     else {
       std::cout << "error, blatt weisskopf not implemented for L> 3 (if you are trying to calculate dispersive corrections in such a case, good luck to ya" << std::endl; 
-- 
2.43.0


From 01d75e3b790b177a7013ca3b5cde2137e4192053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:13 +0000
Subject: [PATCH 84/91] fix: the P-vector of GenericKmatrix counts its
 non-resonant part once

The slowly varying term was accumulated inside the loop over poles, so that
with more than one pole it was added 1+2+...+nPoles times.
---
 src/Lineshapes/GenericKmatrix.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Lineshapes/GenericKmatrix.cpp b/src/Lineshapes/GenericKmatrix.cpp
index 08f0391..5bea14c 100644
--- a/src/Lineshapes/GenericKmatrix.cpp
+++ b/src/Lineshapes/GenericKmatrix.cpp
@@ -130,12 +130,11 @@ DEFINE_GENERIC_SHAPE(GenericKmatrix)
     for(unsigned k = 0 ; k < nChannels; ++k){
       for(unsigned alpha = 0; alpha < nPoles; ++alpha){
         Expression beta = 0;
-        for(unsigned q = 0 ; q < nChannels; ++q){
-          beta += a[q] * poleConfigs[alpha].couplings[q];
-          phi[k] += a[q] * non_resonant[{k,q}];
-        }
-        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s) + phi[k] * (1.+s_0)/(s-s_0);
+        for(unsigned q = 0 ; q < nChannels; ++q) beta += a[q] * poleConfigs[alpha].couplings[q];
+        P[k] += (beta * poleConfigs[alpha].couplings[k])/(poleConfigs[alpha].s - s);
       }
+      for(unsigned q = 0 ; q < nChannels; ++q) phi[k] += a[q] * non_resonant[{k,q}];
+      P[k] += phi[k] * (1.+s_0)/(s-s_0);
       F_0 += propagator[{0,k}] * P[k];
     }
     //TODO: implement higher orbital angular momentum
-- 
2.43.0


From e38daf2f35f1917ca2e7e6fed6b437ea1a7f1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:49 +0000
Subject: [PATCH 85/91] fix: limits of the parameters of a fit result read from
 a file

---
 src/FitResult.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 97dd601..45f1ea3 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -83,7 +83,7 @@ bool FitResult::readFile( const std::string& fname )
       return nullptr;
     }
     auto args = to_vector_of_doubles( tokens.begin() + 3, tokens.end() ); 
-    auto p = new MinuitParameter( tokens[1], parse<Flag>(tokens[2]), args[0], args[1], args[5], args[6] );
+    auto p = new MinuitParameter( tokens[1], parse<Flag>(tokens[2]), args[0], args[1], args[4], args[5] );
     p->setResult(args[0], args[1], args[2], args[3]);
     return p;
   }; 
-- 
2.43.0


From ab97573e211307207fcebd25effb69c9b2b7eac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:49 +0000
Subject: [PATCH 86/91] fix: copies of a fit result find the covariance of
 parameters by name

---
 src/FitResult.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 45f1ea3..4ae290d 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -34,6 +34,7 @@ FitResult::FitResult( const FitResult& other )
   , m_observables( other.observables() )
   , m_fitFractions( other.fitFractions() )
   , m_covarianceMatrix(other.cov())
+  , m_covMapping( other.m_covMapping )
 {
 }
 
-- 
2.43.0


From 06fc6e3be9b4db7d73a46d86e55750777fdce07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:49 +0000
Subject: [PATCH 87/91] fix: options written from a fit result keep limits that
 include zero

---
 src/FitResult.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/FitResult.cpp b/src/FitResult.cpp
index 4ae290d..b167b85 100644
--- a/src/FitResult.cpp
+++ b/src/FitResult.cpp
@@ -320,16 +320,17 @@ void FitResult::writeOptions( const std::string& output, const std::string& inpu
 void FitResult::writeOptions( std::ostream& output_stream, const std::string& input)
 {
   std::set<std::string> keys;
-  auto print_param = [&](auto& param) mutable {
+  auto has_limits  = [](const auto& param){ return param->minInit() != 0. || param->maxInit() != 0.; };
+  auto print_param = [&](auto& param, const bool& limits) mutable {
     std::string rt= mysprintf( " %-7s %-12lf %-12lf", to_string<Flag>(param->flag()).c_str(), param->mean(), param->err() );
-    if( param->minInit() != 0. && param->maxInit() != 0. ) rt += mysprintf(" %-12lf %-12lf", param->minInit(), param->maxInit()); 
+    if( limits ) rt += mysprintf(" %-12lf %-12lf", param->minInit(), param->maxInit()); 
     return rt; 
   };
   auto try_add_real    = [&](const auto& key) mutable
   {
     auto param = this->m_mps->find(key);
     if( param == nullptr ) return false; 
-    output_stream << mysprintf("%-50s", param->name().c_str() ) << print_param(param) << "\n"; 
+    output_stream << mysprintf("%-50s", param->name().c_str() ) << print_param(param, has_limits(param)) << "\n"; 
     keys.insert(key); 
     return true;  
   };
@@ -338,7 +339,8 @@ void FitResult::writeOptions( std::ostream& output_stream, const std::string& in
      auto param_re = this->m_mps->find(key+"_Re");
      auto param_im = this->m_mps->find(key+"_Im");
      if( param_re == nullptr || param_im == nullptr ) return false; 
-     output_stream << mysprintf("%-50s", key.c_str()) << print_param(param_re) << print_param(param_im) << "\n"; 
+     const bool limits = has_limits(param_re) || has_limits(param_im);
+     output_stream << mysprintf("%-50s", key.c_str()) << print_param(param_re, limits) << print_param(param_im, limits) << "\n"; 
      keys.insert(key+"_Re"); 
      keys.insert(key+"_Im"); 
      return true; 
-- 
2.43.0


From 57780041fb0e99212376b78fe3af0c74fb3bd650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:46 +0000
Subject: [PATCH 88/91] fix: a reset error propagator has no parameters left to
 vary

---
 src/ErrorPropagator.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/ErrorPropagator.cpp b/src/ErrorPropagator.cpp
index 112c4d9..170dd8b 100644
--- a/src/ErrorPropagator.cpp
+++ b/src/ErrorPropagator.cpp
@@ -150,11 +150,7 @@ std::vector<double> LinearErrorPropagator::getVectorError( const std::function<s
 
 void LinearErrorPropagator::reset()
 {
-  for ( int x = 0; x < m_cov.GetNrows(); ++x ) {
-    for ( int y = 0; y < m_cov.GetNrows(); ++y ) {
-      m_cov( x, y ) = 0;
-    }
-  }
+  m_cov.ResizeTo( 0, 0 );
   m_parameters.clear();
 }
 
-- 
2.43.0


From c34221472d77e2ca03483d1b6c44d5200267602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:35 +0000
Subject: [PATCH 89/91] fix: the integral of a pair of amplitudes is available
 in either order

---
 src/CoherentSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CoherentSum.cpp b/src/CoherentSum.cpp
index 10d8279..088a875 100644
--- a/src/CoherentSum.cpp
+++ b/src/CoherentSum.cpp
@@ -263,7 +263,7 @@ real_t CoherentSum::norm(const Bilinears& norms) const
 
 complex_t CoherentSum::norm(const size_t& x, const size_t& y) const
 {
-  return m_normalisations.get(x, y);
+  return x > y ? std::conj( m_normalisations.get(y, x) ) : m_normalisations.get(x, y);
 }
 
 void CoherentSum::transferParameters()
-- 
2.43.0


From 246b7bbebf87e4a38f1db9c23acf840355aff0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:44 +0000
Subject: [PATCH 90/91] fix: one-dimensional integrals of functions of a number
 are returned

---
 AmpGen/NumericalIntegration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/AmpGen/NumericalIntegration.h b/AmpGen/NumericalIntegration.h
index eaf1288..27e2dbc 100644
--- a/AmpGen/NumericalIntegration.h
+++ b/AmpGen/NumericalIntegration.h
@@ -93,7 +93,7 @@ namespace AmpGen {
     //   2.A. van Doren and L. de Ridder, An adaptive algorithm for numerical
     //     integration over an n-dimensional cube, J.Comput. Appl. Math. 2 (1976) 207-217.
     if constexpr( dim == 1 ){
-      if constexpr( is_functor<fcn, double(const double&)>::value ) { integrate_1d(F, xmin[0], xmax[0] ); }
+      if constexpr( is_functor<fcn, double(const double&)>::value ) { return integrate_1d(F, xmin[0], xmax[0] ); }
       else if constexpr( is_functor<fcn, double(const std::array<double, 1>& ) >::value ){
         return integrate_1d( [&F](const double& x){ return F( std::array<double,1>{x} ); }, xmin[0], xmax[0] );
       }
-- 
2.43.0


From de0de46dad4d79402b3fed9b60cce35f280f2e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:45 +0000
Subject: [PATCH 91/91] fix: integrals over the Dalitz plane of another mass
 use that mass throughout

---
 src/DalitzIntegrator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DalitzIntegrator.cpp b/src/DalitzIntegrator.cpp
index 3ea3e61..abfb1ec 100644
--- a/src/DalitzIntegrator.cpp
+++ b/src/DalitzIntegrator.cpp
@@ -111,7 +111,7 @@ real_v DalitzIntegrator::J( const sqCo& coords, const double& s ) const
   auto max         = std::sqrt(s)    - std::sqrt(m_s3);
   auto min         = std::sqrt(m_s1) + std::sqrt(m_s2);
   auto pA          = SQRT( mAB*mAB/4. - (m_s1+m_s2)/2. + (m_s1-m_s2)*(m_s1-m_s2)/(4*mAB*mAB) );
-  auto eC          = ( m_s0 - m_s3 - mAB * mAB ) / (2*mAB);
+  auto eC          = ( s - m_s3 - mAB * mAB ) / (2*mAB);
   auto pC          = safe_sqrt( eC * eC - m_s3 );
   auto mPrime_     = coords.first;
   auto thetaPrime_ = coords.second;
@@ -134,7 +134,7 @@ void DalitzIntegrator::setEvent(const sqCo& x, real_v* event, const double& s) c
   auto pA  = SQRT( mAB*mAB/4. - (m_s1+m_s2)/2. + (m_s1-m_s2)*(m_s1-m_s2)/(4*mAB*mAB) );
   auto eA  = SQRT( pA * pA + m_s1 );
   auto eB  = SQRT( pA * pA + m_s2 );
-  auto eC  = ( m_s0 - m_s3 - mAB * mAB ) / ( 2 * mAB );
+  auto eC  = ( s - m_s3 - mAB * mAB ) / ( 2 * mAB );
   auto pC  = SQRT( eC * eC - m_s3 );
   event[2]   = pA;
   event[3]   = eA;
-- 
2.43.0

