From 304846744493d39f02060ec29a60561e37b6f6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 01/18] fix: refuse authorization codes whose lifetime is over

---
 grant/authorization_code.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/grant/authorization_code.go b/grant/authorization_code.go
index f3b29f6..91b752c 100644
--- a/grant/authorization_code.go
+++ b/grant/authorization_code.go
@@ -94,6 +94,16 @@ func AuthorizationCode() *GrantHandler {
 					return nil, oer.NewOAuthSimpleError(oer.ErrServerError)
 				}
 			}
+			if sess.GetCreatedAt()+sess.GetExpiresIn() < requestedTime.Unix() {
+
+				logger.Info(log.TokenEndpointLog(TypeAuthorizationCode,
+					log.AuthSessionConditionMismatch,
+					map[string]string{"client_id": c.GetId()},
+					"expired code"))
+
+				return nil, oer.NewOAuthError(oer.ErrInvalidGrant,
+					"expired 'code'")
+			}
 			info, err := sdi.FindActiveAuthInfoById(sess.GetAuthId())
 			if err != nil {
 				if err.Type() == bridge.ErrFailed {
-- 
2.43.0


From 452703d8ad7a4bf2cd68f164c4adc9221fb09177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 02/18] fix: check the grant type of clients authenticated by
 assertion

---
 token_endpoint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/token_endpoint.go b/token_endpoint.go
index 32c4f2b..fa9a76b 100644
--- a/token_endpoint.go
+++ b/token_endpoint.go
@@ -267,6 +267,15 @@ func (te *TokenEndpoint) validateClientByAssertion(w http.ResponseWriter,
 		return nil, false
 	}
 
+	if !c.CanUseGrantType(gt) {
+
+		te.logger.Info(log.TokenEndpointLog(gt, log.UnauthorizedGrantType,
+			map[string]string{"client_id": c.GetId()}, "unauthorized 'grant_type'."))
+
+		te.fail(w, oer.NewOAuthSimpleError(oer.ErrUnauthorizedClient))
+		return nil, false
+	}
+
 	return c, true
 }
 
-- 
2.43.0


From 5ff8c9e3ec82c416c6fab38cf248adec8228aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 03/18] fix: do not panic on a malformed client_assertion

---
 assertion/error.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assertion/error.go b/assertion/error.go
index e321c91..f593ffb 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -48,7 +48,7 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 
 			logger.Debug(log.TokenEndpointLog(gt,
 				log.AssertionConditionMismatch,
-				map[string]string{"assertion": a, "client_id": c.GetId()},
+				map[string]string{"assertion": a},
 				"invalid 'assertion' format"))
 
 			return oer.NewOAuthError(oer.ErrInvalidGrant,
-- 
2.43.0


From f7a8f1635e0d422e50796a283daff432356b4244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 04/18] fix: do not panic when the protector gets no auth info

---
 resource_protector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resource_protector.go b/resource_protector.go
index f22331e..13abdb5 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -221,7 +221,7 @@ func (rp *ResourceProtector) Validate(w http.ResponseWriter, r *http.Request,
 			return false
 		}
 	} else {
-		if at == nil {
+		if info == nil {
 
 			rp.logger.Error(log.ProtectedResourceLog(r.URL.Path, log.InterfaceError,
 				map[string]string{"method": "FindActiveAuthInfoById"},
-- 
2.43.0


From 5ca574ab3b3ad4bbd7dccd0cd343ab457b2e0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:18 +0000
Subject: [PATCH 05/18] fix: accept access tokens from body and URL where
 enabled

---
 resource_protector.go | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/resource_protector.go b/resource_protector.go
index 13abdb5..1a6abfe 100644
--- a/resource_protector.go
+++ b/resource_protector.go
@@ -52,19 +52,18 @@ func (rp *ResourceProtector) SetErrorURIBulder(builder oer.OAuthErrorURIBuilder)
 
 func (rp *ResourceProtector) findTokenFromRequest(r *http.Request) string {
 	header := r.Header.Get("Authorization")
-	if header == "" {
-		return ""
-	}
-	parts := strings.Split(header, " ")
-	if len(parts) < 2 {
-		return ""
-	}
-	if strings.ToLower(parts[0]) != "bearer" {
-		return ""
-	}
-	token := parts[1]
-	if token != "" {
-		return token
+	if header != "" {
+		parts := strings.Split(header, " ")
+		if len(parts) < 2 {
+			return ""
+		}
+		if strings.ToLower(parts[0]) != "bearer" {
+			return ""
+		}
+		token := parts[1]
+		if token != "" {
+			return token
+		}
 	}
 	switch rp.tokenAcceptanceMethod {
 	case FromHeader:
-- 
2.43.0


From 47ec56ebb04c9cc052df94ccd58bc3f5f8f26913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 06/18] fix: name the token lifetime expires_in in implicit
 answers

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index f96be6f..ba3462c 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1115,7 +1115,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 		at = t.GetAccessToken()
 		params["access_token"] = at
 		params["token_type"] = "bearer"
-		params["rexpires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
+		params["expires_in"] = fmt.Sprintf("%d", t.GetAccessTokenExpiresIn())
 	}
 
 	authTime, err := callbacks.GetAuthTime()
-- 
2.43.0


From 50a66a1336e265a072889426000336eaf46030e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 07/18] fix: treat a repeated prompt=none as none

---
 authorization_endpoint.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index ba3462c..60aed0e 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -549,7 +549,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
-	if req.Prompt == prompt.None {
+	if prompt.IncludeNone(req.Prompt) {
 
 		policy := clnt.GetNonePromptPolicy()
 
-- 
2.43.0


From 738ebde5c7c65c75d029b4dcf0d116371f77e386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 08/18] fix: honour max_age in prompt=none requests

---
 authorization_endpoint.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 60aed0e..6157fb4 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -624,7 +624,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutPrompt(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -711,7 +711,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutPrompt(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -820,7 +820,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				}
 				if info.IsActive() && scope.Same(info.GetScope(), req.Scope) &&
 					info.GetAuthorizedAt()+int64(a.policy.ConsentOmissionPeriod) > a.currentTime().Unix() {
-					return a.complete(callbacks, r, rh, info, req)
+					return a.completeWithoutPrompt(callbacks, r, rh, info, req)
 				} else {
 					rh.Error(ruri, "consent_required", "", state)
 					return false
@@ -1026,6 +1026,32 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 	return a.complete(callbacks, r, rh, info, req)
 }
 
+// completeWithoutPrompt completes a 'prompt:none' request, unless the login is older than 'max_age'.
+func (a *AuthorizationEndpoint) completeWithoutPrompt(
+	callbacks bridge.AuthorizationCallbacks,
+	r *http.Request,
+	rh authorization.ResponseHandler,
+	info bridge.AuthInfo, req *authorization.Request) bool {
+	if req.MaxAge > 0 {
+		authTime, err := callbacks.GetAuthTime()
+		if err != nil {
+			a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+				log.InterfaceError,
+				map[string]string{
+					"method": "GetAuthTime",
+				},
+				err.Error()))
+			rh.Error(req.RedirectURI, "server_error", "", req.State)
+			return false
+		}
+		if req.MaxAge < a.currentTime().Unix()-authTime {
+			rh.Error(req.RedirectURI, "login_required", "", req.State)
+			return false
+		}
+	}
+	return a.complete(callbacks, r, rh, info, req)
+}
+
 func (a *AuthorizationEndpoint) complete(
 	callbacks bridge.AuthorizationCallbacks,
 	r *http.Request,
-- 
2.43.0


From 2baf0668513cfc3b0c1a1f235cb1f223175d3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 09/18] fix: answer server_error when the data layer returns
 nothing while completing

---
 authorization_endpoint.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 6157fb4..b2f0898 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1019,7 +1019,7 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 		return false
 	}
 	info, serr := a.di.CreateOrUpdateAuthInfo(uid, req.ClientId, req.Scope)
-	if serr != nil {
+	if serr != nil || info == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1119,7 +1119,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	req *authorization.Request) bool {
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1134,7 +1134,7 @@ func (a *AuthorizationEndpoint) completeImplicitFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
@@ -1220,7 +1220,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	}
 
 	clnt, serr := a.di.FindClientById(req.ClientId)
-	if serr != nil {
+	if serr != nil || clnt == nil {
 		rh.Error(req.RedirectURI, "server_error", "", req.State)
 		return false
 	}
@@ -1237,7 +1237,7 @@ func (a *AuthorizationEndpoint) completeHybridFlowRequest(
 	at := ""
 	if req.Flow.RequireAccessToken {
 		t, serr := a.di.CreateOAuthToken(info, false)
-		if serr != nil {
+		if serr != nil || t == nil {
 			rh.Error(req.RedirectURI, "server_error", "", req.State)
 			return false
 		}
-- 
2.43.0


From 36943c2484eacbfe9b5d0c99eae5b9d94c16540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 10/18] fix: answer server_error when the login screen cannot
 be shown

---
 authorization_endpoint.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index b2f0898..5666b88 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -895,7 +895,19 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 				},
 				"force-login is required by 'prompt'"))
 
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
 			return false
 		}
 	}
@@ -921,7 +933,19 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					"max_age": mas,
 				},
 				"'auth_time' is over 'max_age', so, show login page."))
-			callbacks.ShowLoginScreen(req)
+			err = callbacks.ShowLoginScreen(req)
+			if err != nil {
+
+				a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+					log.InterfaceError,
+					map[string]string{
+						"method": "ShowLoginScreen",
+					},
+					err.Error()))
+
+				rh.Error(ruri, "server_error", "", state)
+				return false
+			}
 			return false
 		}
 	}
-- 
2.43.0


From 92e6705206ef3a0cbfe9f0c11a5f4ec13b9b3f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 11/18] fix: generate code verifiers from a cryptographic
 source

---
 pkce/crypto.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkce/crypto.go b/pkce/crypto.go
index 92fa4b5..eb28402 100644
--- a/pkce/crypto.go
+++ b/pkce/crypto.go
@@ -1,18 +1,17 @@
 package pkce
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"encoding/base64"
-	"math/rand"
+	"fmt"
 	"strings"
-	"time"
 )
 
 func GenRandomCodeVerifier() string {
-	rand.Seed(time.Now().UnixNano())
 	var data [32]byte
-	for i := 0; i < 32; i++ {
-		data[i] = byte(rand.Intn(256))
+	if _, err := rand.Read(data[:]); err != nil {
+		panic(fmt.Sprintf("failed to read random data: %s", err))
 	}
 	return EncodeBase64WithoutPadding(data[:])
 }
-- 
2.43.0


From 5fca586f12cdd21b1a3d47acec6ca65ffb2598a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 12/18] fix: do not log users' passwords

---
 grant/password.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/grant/password.go b/grant/password.go
index 0cdf6af..ef629f3 100644
--- a/grant/password.go
+++ b/grant/password.go
@@ -63,7 +63,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"user id not found."))
 
@@ -86,7 +85,6 @@ func Password() *GrantHandler {
 							"method":    "FindUserId",
 							"client_id": c.GetId(),
 							"username":  username,
-							"password":  password,
 						},
 						"interface returned ServerError."))
 
-- 
2.43.0


From 6142f5acf237bc8680a844f1fa7f7241c6f5e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 13/18] fix: escape the target of form_post answers

---
 authorization/response.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/authorization/response.go b/authorization/response.go
index 61358d0..06ac8df 100644
--- a/authorization/response.go
+++ b/authorization/response.go
@@ -124,7 +124,7 @@ func (h *HTMLResponseHandler) Error(uri, typ, desc, state string) {
 
 func (h *HTMLResponseHandler) render(uri string, params map[string]string) {
 	doc := `<html><head><title>Submit This Form</title></head><body onload="javascript:document.forms[0].submit()">`
-	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, uri)
+	doc = doc + fmt.Sprintf(`<form method="post" action="%s">`, html.EscapeString(uri))
 	for k, v := range params {
 		doc = doc + fmt.Sprintf(`<input type="hidden" name="%s" value="%s" />`, k, html.EscapeString(v))
 	}
-- 
2.43.0


From cdd9884990e30271ef386950c8caedb33ad94140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 14/18] fix: verify id_token_hint with the public part of
 asymmetric keys

---
 authorization_endpoint.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 5666b88..5ae0b93 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1,6 +1,7 @@
 package goidc
 
 import (
+	"crypto"
 	"encoding/json"
 	"fmt"
 	"net/http"
@@ -727,7 +728,11 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			}
 
 			t, jwt_err := jwt.Parse(req.IdTokenHint, func(t *jwt.Token) (interface{}, error) {
-				return clnt.GetIdTokenKey(), nil
+				key := clnt.GetIdTokenKey()
+				if signer, ok := key.(crypto.Signer); ok {
+					return signer.Public(), nil
+				}
+				return key, nil
 			})
 
 			if jwt_err != nil {
-- 
2.43.0


From c9c4ec4a8d6ee8856870c392fc648b942bd2541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 15/18] fix: show the error screen when a suspended request
 cannot be resumed

---
 authorization_endpoint.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 5ae0b93..5f2bdb2 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -1016,6 +1016,17 @@ func (a *AuthorizationEndpoint) CancelRequest(w http.ResponseWriter, r *http.Req
 				"method": "Continue",
 			},
 			err.Error()))
+		callbacks.ShowErrorScreen(authorization.ErrServerError)
+		return false
+	}
+	if req == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"the method returns (nil, nil)."))
+		callbacks.ShowErrorScreen(authorization.ErrServerError)
 		return false
 	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
@@ -1033,6 +1044,17 @@ func (a *AuthorizationEndpoint) CompleteRequest(w http.ResponseWriter, r *http.R
 				"method": "Continue",
 			},
 			err.Error()))
+		callbacks.ShowErrorScreen(authorization.ErrServerError)
+		return false
+	}
+	if req == nil {
+		a.logger.Error(log.AuthorizationEndpointLog(r.URL.Path,
+			log.InterfaceError,
+			map[string]string{
+				"method": "Continue",
+			},
+			"the method returns (nil, nil)."))
+		callbacks.ShowErrorScreen(authorization.ErrServerError)
 		return false
 	}
 	rh := authorization.ResponseHandlerForMode(req.ResponseMode, w, r)
-- 
2.43.0


From d0895c083aecbafbe9dc97c1b2b5061263d3d960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:32 +0000
Subject: [PATCH 16/18] fix: max_age=0 was ignored where the policy admits it,
 instead of asking for a new login

---
 authorization_endpoint.go | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index 5f2bdb2..fc5cdb9 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -550,8 +550,24 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		LoginHint:    r.FormValue("login_hint"),
 	}
 
+	// 'max_age=0' asks for an authentication which happens now, just like 'prompt=login'
+	forceLogin := prompt.IncludeLogin(req.Prompt) || (mas != "" && ma == 0)
+
 	if prompt.IncludeNone(req.Prompt) {
 
+		if forceLogin {
+
+			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
+				log.LoginRequired,
+				map[string]string{
+					"max_age": mas,
+				},
+				"'max_age=0' requires a login, which 'prompt=none' forbids."))
+
+			rh.Error(ruri, "login_required", "", state)
+			return false
+		}
+
 		policy := clnt.GetNonePromptPolicy()
 
 		switch policy {
@@ -874,7 +890,7 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 		}
 	}
 
-	if prompt.IncludeLogin(req.Prompt) {
+	if forceLogin {
 
 		isFromLogin, err := callbacks.RequestIsFromLogin()
 
@@ -896,9 +912,10 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 			a.logger.Debug(log.AuthorizationEndpointLog(r.URL.Path,
 				log.LoginRequired,
 				map[string]string{
-					"prompt": req.Prompt,
+					"prompt":  req.Prompt,
+					"max_age": mas,
 				},
-				"force-login is required by 'prompt'"))
+				"force-login is required by 'prompt' or 'max_age'"))
 
 			err = callbacks.ShowLoginScreen(req)
 			if err != nil {
-- 
2.43.0


From 90342c9ab11aeeb01c8404169abdfe04122caaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:52 +0000
Subject: [PATCH 17/18] fix: an assertion whose 'exp' is zero was accepted as
 if it never expired

---
 assertion/error.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/assertion/error.go b/assertion/error.go
index f593ffb..616ea9f 100644
--- a/assertion/error.go
+++ b/assertion/error.go
@@ -139,6 +139,18 @@ func HandleAssertionError(a string, t *jwt.Token, jwt_err error,
 			"'exp' parameter not found in assertion")
 	}
 
+	// jwt.Parse takes an 'exp' of zero for a missing one, and doesn't refuse it
+	if !claims.VerifyExpiresAt(jwt.TimeFunc().Unix(), true) {
+
+		logger.Info(log.TokenEndpointLog(gt,
+			log.AssertionConditionMismatch,
+			map[string]string{"assertion": a, "client_id": c.GetId()},
+			"assertion expired"))
+
+		return oer.NewOAuthError(oer.ErrInvalidGrant,
+			"assertion expired")
+	}
+
 	switch num := claims["iat"].(type) {
 	case json.Number:
 		if iat, er = num.Int64(); er == nil {
-- 
2.43.0


From dcf13dc5188305eb83d78f5fae9408f10cc35c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:53 +0000
Subject: [PATCH 18/18] fix: an id_token_hint whose 'exp' is zero was accepted
 as if it never expired

---
 authorization_endpoint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/authorization_endpoint.go b/authorization_endpoint.go
index fc5cdb9..bcf48bb 100644
--- a/authorization_endpoint.go
+++ b/authorization_endpoint.go
@@ -779,6 +779,12 @@ func (a *AuthorizationEndpoint) HandleRequest(w http.ResponseWriter,
 					state)
 				return false
 			}
+			// jwt.Parse takes an 'exp' of zero for a missing one, and doesn't refuse it
+			if !claims.VerifyExpiresAt(jwt.TimeFunc().Unix(), true) {
+				rh.Error(ruri, "invalid_request", "'id_token_hint' is invalid.",
+					state)
+				return false
+			}
 			sub := ""
 			if found, ok := claims["sub"].(string); ok {
 				sub = found
-- 
2.43.0

