#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    assert statement.count('. ')<=2,(id,statement.count('. '))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

TE="token_endpoint.go"; AE="authorization_endpoint.go"; RP="resource_protector.go"
AC="grant/authorization_code.go"; RT="grant/refresh_token.go"; PW="grant/password.go"; CC="grant/client_credential.go"; JW="grant/jwt.go"
AS="assertion/error.go"; IDT="id_token/id_token.go"

p("C01","An authorization code pays out at most once",
 "An authorization code yields at most one successful token response, however many requests present it, on however many nodes, concurrently, retried after lost replies, or across data-layer errors and crashes (given a data layer that refuses to retire a code twice). A token response is given only after the data layer has acknowledged that this very request retired the code; when retiring is refused or fails, the request is refused and no token or ID token is disclosed.",
 ["schedules","crash_points","fault_sequences","histories"],
 "every interleaving of requests presenting one code over 1-3 nodes, every data-layer error or lost acknowledgement, every crash point inside a redemption, every retry history",
 "The tests redeem a code once, sequentially, against a store that never fails; single use is a statement about races, lost acknowledgements and crashes between minting the token and retiring the code.",
 [AC,"bridge/interface.go"],
 [("the token is returned only after DisableSession succeeded","grant/authorization_code.go: AuthorizationCode")],
 [("auth session enabled flag","code not yet redeemed","bridge.DataInterface.DisableSession")],
 ["token endpoint HTTP responses","data-layer call history"])

p("C02","A code pays out only to its client, redirect URI and PKCE proof",
 "A code is redeemed only by the client it was issued to, only when the request repeats exactly the redirect URI of the authorization request, and, if the authorization request carried a PKCE value, only with the matching proof under the declared method (plain or S256); otherwise it is refused and the code stays usable by its rightful owner. It is refused while the user's authorization behind it is not active. A redemption that meets all conditions is honoured with the tokens and scope of exactly that authorization.",
 ["inputs","schedules","histories","configurations"],
 "all pairs of codes, clients, redirect URIs, PKCE values and methods in one run, with codes of different users and clients redeemed concurrently",
 "Tests try a few fixed wrong values one at a time with one client and one code; the binding must hold for every crossing of clients, users and codes and for every interleaving of their redemptions.",
 [AC,"pkce/verifier.go","pkce/crypto.go",AE],
 [("comparison of client id, redirect URI and code challenge","grant/authorization_code.go"),("PKCE verifiers","pkce/verifier.go")],
 [("auth session","redirect URI, PKCE value, nonce recorded at authorization","authorization/request.go: ToSession")],
 ["token endpoint HTTP responses"])

p("C03","A code is dead once its lifetime is over",
 "A code is redeemable from its creation through the second in which the lifetime it was issued with ends (creation time plus lifetime, by the clock of the node that handles the redemption), and never later, even if the data layer still returns it. Lifetimes come from the configured policy at issue. Clock skew or jumps change the verdict only through what the handling node's clock reads.",
 ["schedules","histories","configurations","fault_sequences"],
 "every delay between issue and redemption including the exact boundary seconds, every node clock skew, step and rewind, every configured lifetime",
 "No test advances time between issue and redemption; the real suite runs at one fixed instant.",
 [AC,AE,"authorization/request.go"],
 [("lifetime comparison against the request time","grant/authorization_code.go"),("lifetime written into the session","authorization_endpoint.go: ToSession call")],
 [("session created-at and expires-in","lifetime of the code","bridge.AuthSession")],
 ["token endpoint HTTP responses"])

p("C04","Refresh works only for its owner, while authorized, in scope and in time",
 "A refresh token is honoured only for the client it was issued to, while the user's authorization is active and still includes offline_access, and through the second in which the refresh token's lifetime ends by the handling node's clock; otherwise it is refused and nothing is disclosed. The answer carries exactly the tokens the data layer issued for this refresh and the authorization's current scope, never a wider one. When the data layer refuses or fails the refresh no token is disclosed, so with a rotating data layer each refresh token pays out at most once under any race, retry or crash.",
 ["schedules","crash_points","fault_sequences","histories","inputs"],
 "every chain of refreshes, races and retries on one refresh token, revocation or scope change at any point, every clock reading around the lifetime",
 "Tests refresh once in sequence with a healthy store and a fixed clock.",
 [RT,"scope/util.go"],
 [("expiry, client and offline_access checks then RefreshAccessToken","grant/refresh_token.go")],
 [("refresh token record","owner authorization, created-at, lifetime","bridge.OAuthToken")],
 ["token endpoint HTTP responses","data-layer call history"])

p("C05","Only an authenticated client with the right grant gets tokens",
 "Every successful token response goes to a caller that proved to be an existing, enabled client: with its current secret presented in a place the endpoint is configured to accept (HTTP Basic always; request body or URL only when opted in; Basic decides when present), or with a client assertion where those are enabled. Whichever way the client authenticated, the requested grant type must be one the endpoint supports and this client is permitted to use. Any other request is refused (invalid_client for missing credentials, an unknown client or a wrong secret, unauthorized_client for a grant not permitted) before any authorization or token is created or changed.",
 ["inputs","configurations","histories","schedules"],
 "all combinations of credential location, method, acceptance setting, client state and grant type, with clients disabled, re-enabled and re-keyed during the run",
 "Tests check a handful of fixed header and body combinations for one client; they never combine client assertions with grant permissions or with concurrent key rotation.",
 [TE,"assertion/error.go","basic_auth/util.go"],
 [("findClientCredential, validateClientBySecret, validateClientByAssertion","token_endpoint.go")],
 None,["token endpoint HTTP responses","data-layer call history"])

p("C06","Assertions count only if genuine, current, addressed here and fresh",
 "A signed assertion, used to authenticate a client or as a grant, is accepted only if its signature verifies under a key of the client concerned for the stated algorithm, its audience is this provider, it carries an expiry that has not passed and is not dated in the future, by the handling node's clock. It is accepted only after the data layer recorded its client, identifier and times without objection, with exactly the values in the assertion; so one the data layer knows as already used is refused under any race, replay or crash. An assertion meeting all of this is honoured.",
 ["schedules","inputs","fault_sequences","histories","crash_points"],
 "concurrent and repeated presentation of one assertion over several nodes, skewed clocks around expiry and not-before, damaged, unsigned, foreign-keyed and wrong-audience assertions, data-layer errors while recording",
 "Tests present each hand-made assertion once at a fixed time; replay refusal is a race and a history property.",
 [AS,JW,TE],
 [("HandleAssertionError: signature, exp, aud, RecordAssertionClaims","assertion/error.go"),("key lookup","token_endpoint.go, grant/jwt.go")],
 [("recorded assertion identifiers","what has been seen","bridge.DataInterface.RecordAssertionClaims")],
 ["token endpoint HTTP responses","data-layer call history"])

p("C07","Direct grants act only for the proven user and the permitted scope",
 "A password grant yields a token only for the user whose name and password match, a client-credentials grant only for the client's own owner (and never when it has none), an assertion grant only for the subject the assertion names; the authorization is made for that user and the requesting client, with exactly the requested scope. A requested scope the client may not use is refused as invalid_scope. A refused request leaves no authorization or token behind, and a request meeting all conditions is honoured.",
 ["inputs","schedules","histories","fault_sequences"],
 "all users, clients, scopes and subjects crossed, many direct grants in flight at once for different users, data-layer errors at each step",
 "Tests use one user, one client and one scope per test, one request at a time.",
 [PW,CC,JW],
 [("FindUserId / GetOwnerUserId / FindUserIdBySubject then CreateOrUpdateAuthInfo","grant/password.go, grant/client_credential.go, grant/jwt.go")],
 None,["token endpoint HTTP responses","data-layer call history"])

p("C08","A protected resource opens only to a live access token",
 "A request is let through only if it presents, in a place the protector is configured to accept (Bearer header always; form body or URL only when opted in), an access token the data layer knows, whose lifetime counted from its last refresh has not passed (valid through the second in which it ends, by the handling node's clock), and whose authorization is active. Otherwise it is refused: 401 naming invalid_token for an unknown, expired or revoked token, invalid_request when none is presented. A request presenting such a live token is let through.",
 ["schedules","histories","inputs","configurations"],
 "every delay and clock skew around expiry, refresh and revocation racing resource access on other nodes, every token location and acceptance setting",
 "Tests validate one token at one instant in the header only; they never let it age, be refreshed or be revoked.",
 [RP],
 [("findTokenFromRequest, Validate","resource_protector.go")],
 [("access token record","refreshed-at and lifetime","bridge.OAuthToken")],
 ["Validate result, response status and WWW-Authenticate"])

p("C09","The resource sees the token's true identity and scope",
 "When a request is let through, the identity headers the application reads (user, client, scope) are exactly those of the authorization behind the presented token, whatever headers of those names the caller sent and whatever other requests are in flight. Where a path requires scopes, the request is let through only if the token's authorization holds all of them, else it is refused with 403 insufficient_scope naming a missing one. Paths without requirements admit any live token.",
 ["inputs","schedules","histories"],
 "spoofed identity headers, tokens of many users and clients validated concurrently, scope changes during the run, every required-scope table",
 "Tests use one token, never send spoofed headers, and never run two validations at once.",
 [RP,"scope/util.go"],
 [("identity headers set from the authorization","resource_protector.go: Validate"),("ValidateWithScopes","resource_protector.go")],
 None,["request headers after Validate","response status"])

p("C10","Answers go only to a registered redirect URI, with state intact",
 "The authorization endpoint sends the browser, by redirect or by auto-submitted form, only to the redirect URI of the request, and only if it is registered for the named, enabled client when the request is made; when client or URI is missing, unknown or not registered the user sees an error screen and nothing is sent anywhere. The URI's own path and query survive, the response parameters reach the client undistorted in the chosen channel, and the request's state comes back exactly, on success, refusal and error alike. A form answer is well-formed HTML whose values and target come from the request and can inject nothing.",
 ["inputs","schedules","configurations","fault_sequences"],
 "every registered and unregistered URI and state value including markup and URL-special characters, every response mode, every refusal and fault path, registration changes during the run",
 "The tests of this endpoint cover one helper function; no test drives an authorization request end to end.",
 [AE,"authorization/response.go"],
 [("CanUseRedirectURI before any response","authorization_endpoint.go: HandleRequest"),("response handlers","authorization/response.go")],
 None,["HTTP redirect target or form","host callbacks"])

p("C11","No code or token without the user's consent",
 "An authorization request ends in a code or token only after the user approved this request, or, without a consent screen, when an active authorization of the same user for the same client with the same scope exists that was given less than the consent-omission period ago, the request does not ask for consent, and the client's policy allows omitting it (or allows prompt=none); where all that holds, the user is not asked again. The scope recorded and granted is never wider than what was approved. offline_access is granted only when consent was requested explicitly and not in the implicit flow; elsewhere it is dropped from the request.",
 ["histories","schedules","inputs","configurations"],
 "every history of earlier consents, revocations, scope changes and elapsed time, racing authorizations of one user on several nodes, all prompt values and client policies",
 "No test runs an authorization request; omission of consent depends on history and clocks.",
 [AE,"prompt/util.go","scope/util.go"],
 [("consent omission rule","authorization_endpoint.go: HandleRequest"),("offline_access filter","authorization_endpoint.go: HandleRequest")],
 [("AuthInfo","user's standing authorization: scope, authorized-at, active","bridge.AuthInfo")],
 ["authorization responses","host callbacks","data-layer call history"])

p("C12","Re-login demands are honoured and prompt=none shows no screen",
 "A user who is not logged in, whose login is older than the request's max_age by the handling node's clock, or who must re-login because of prompt=login or max_age=0 and has not just done so, is sent to the login screen before any code or token is issued. With prompt=none no login or consent screen is ever shown: the request either completes, subject to the same login-age rule, or is answered with an error such as login_required, consent_required or interaction_required. A user who meets the demands is not asked to log in again.",
 ["histories","schedules","inputs","configurations"],
 "every login history, session age around max_age including the boundary second, clock skew and jumps, every prompt combination and prompt=none policy, users logging in and out during the request",
 "No test runs an authorization request or lets a login age.",
 [AE,"prompt/util.go"],
 [("prompt and max_age handling","authorization_endpoint.go: HandleRequest")],
 [("login session and its auth time","who is logged in since when","bridge.AuthorizationCallbacks")],
 ["host callbacks","authorization responses"])

p("C13","An authorization answer carries exactly what its response type grants",
 "A successful authorization answer contains a code, an access token, an ID token exactly as its response_type lists (words in any order), never a refresh token, and an access token comes with its type, its lifetime and, if not the one asked for, its scope. It travels in the requested response mode if that is valid and, where the policy demands, no less secure than the flow's default, otherwise in the default mode or as a refusal, as the policy says. Flows and scopes the client may not use, ID tokens without the openid scope, ID tokens from the front channel without a nonce, and over-long or malformed parameters are refused before any screen is shown or anything is issued.",
 ["inputs","configurations","schedules"],
 "all response types, modes, policies, client permissions and scopes, with several flows in flight at once",
 "Tests cover the parsing helpers alone, one string at a time; nothing checks what an authorization answer finally contains.",
 [AE,"flow/flow.go","response_mode/util.go","authorization/response.go"],
 [("flow.JudgeByResponseType, response mode security check, complete*FlowRequest","authorization_endpoint.go")],
 None,["authorization responses","data-layer call history"])

p("C14","ID tokens tell the truth and verify under the client's key",
 "Every ID token verifies under the algorithm and key configured for the client (and names its key id if it has one) and states the provider as issuer, the requesting client as audience, the authorizing user's subject for that client, the authorization request's nonce exactly (or none), the time the user really logged in for this authorization, an issue time read from the handling node's clock while it served the request, and an expiry exactly the configured lifetime later. Its at_hash and c_hash are present when it accompanies an access token or a code from the authorization endpoint and match those values. An ID token is issued by the token endpoint exactly when the authorization includes openid.",
 ["schedules","inputs","configurations","histories"],
 "many flows of different users and clients in flight, logins renewed and clocks moving between authorization and redemption, all signing algorithms and key changes",
 "Tests sign one fixed token; nothing checks the claims of a token that came out of a real flow, and stale or swapped values only show across steps and interleavings.",
 [IDT,AC,AE],
 [("id_token.Gen*, Hash","id_token/id_token.go"),("claims taken from session and authorization","grant/authorization_code.go, authorization_endpoint.go")],
 None,["ID tokens in responses"])

p("C15","Data-layer or host trouble fails closed and is reported as the server's",
 "When the data layer or a host callback fails, is unsupported or returns nothing while a request is served, the request ends in a server error (server_error, HTTP 500, or the host's error screen) and never in a success, disclosed token, code, screen or admitted resource access that depended on the failed answer. At the token endpoint and the protector a negative answer of the data layer (not found, refused) is reported as the client's error, and nowhere is a server error reported when everything was answered positively. No such failure, at any call, makes the request panic or go unanswered.",
 ["fault_sequences","inputs","schedules"],
 "each data-layer and callback operation failing in each way (server error, unsupported, refused, nothing returned, error after effect) at each occurrence, alone and in sequences",
 "The test store never fails; error branches are unexecuted by the suite.",
 [TE,AE,RP,AC,RT,PW,CC,JW,AS],
 [("error-type switch after every data-layer call","all endpoints and grants")],
 None,["HTTP responses","host callbacks","panics"])

p("C16","A suspended authorization resumes exactly as it was asked",
 "An authorization request suspended for login or consent, serialized by the host, and resumed later, on another node, after a crash, or while other requests run, completes as originally asked: same client, flow, scope, redirect URI, response mode, state, nonce and PKCE value, whatever characters these contain. Serializing and restoring a request loses and changes nothing. A request the user declines is answered access_denied to its own redirect URI with its own state, and issues nothing.",
 ["schedules","crash_points","inputs","histories"],
 "every parameter content, every node switch, crash and interleaving between suspension and resumption, completion or decline",
 "No test round-trips a request or completes one.",
 ["authorization/request.go",AE,"flow/flow.go"],
 [("Request.Encode, DecodeRequest, ToSession","authorization/request.go"),("CompleteRequest, CancelRequest","authorization_endpoint.go")],
 None,["requests handed to host callbacks","authorization responses","stored sessions"])

p("C17","Concurrent requests do not affect one another",
 "Requests served at the same time by one endpoint get the answers and cause the effects they would get one after another: no request's data, credentials, verdict or response content leaks into, or is lost to, another, and no memory that one of them writes is used by another without synchronisation. A request whose data layer, host or client is slow, stalled for ever or panics does not delay, block or fail any other request. Configuration set up before serving applies to every request alike.",
 ["schedules"],
 "every interleaving of concurrent requests at every call the endpoints make to their surroundings, including requests that never finish",
 "Every existing test runs one request at a time.",
 [TE,AE,RP,"grant/interface.go"],
 [("no mutable state shared between requests in the endpoints","token_endpoint.go, authorization_endpoint.go, resource_protector.go")],
 None,["HTTP responses","data-layer call history"])

p("C18","Revocation and configuration changes take effect at once",
 "Once the data layer no longer vouches for something (a client disabled, its secret or keys replaced, a grant, scope or redirect URI withdrawn, an authorization or token revoked), no request that starts afterwards on any node succeeds on the strength of it, whatever was served before (finishing an authorization request already accepted for its client and redirect URI excepted). What is newly granted or restored works for requests that start afterwards. Nothing learnt while serving one request decides another.",
 ["histories","schedules","configurations"],
 "every revocation, rotation and restoration at any point of any history, on every node, before, during and after requests relying on the changed fact",
 "Tests build a fresh fixed store per test and never change it between requests.",
 [TE,AE,RP,AC,RT],
 [("every request consults the data layer afresh","all endpoints")],
 None,["HTTP responses"])

p("C19","Honest requests are served, also once faults have stopped",
 "After data-layer errors and panics, lost replies, crashes, restarts and stalls have stopped, a well-formed honest authorization, code redemption, refresh, direct grant or resource access is served successfully on its first attempt by every node, whatever happened before. A failed or crashed attempt does not use up credentials the data layer did not record as used. No honest request is refused while all its conditions hold and nothing fails.",
 ["fault_sequences","crash_points","schedules","histories"],
 "every fault and crash history followed by a fault-free period with fresh and retried honest requests; progress within one attempt per request",
 "The suite injects no faults and so never observes recovery.",
 [TE,AE,RP,AC,RT],
 [("no state kept between requests, all durable state in the data layer","all endpoints")],
 None,["HTTP responses"])

p("C20","Passwords, client secrets and keys never reach logs or answers",
 "No user password, client secret or signing key presented to or used by the endpoints appears in any log message, response header or response body, at any log level, on success, refusal, data-layer failure or crash alike. This covers wrong passwords and secrets a caller submitted just as right ones. An error answer to a caller never discloses a live code or token of somebody else.",
 ["fault_sequences","inputs","histories"],
 "every fault and refusal path of every endpoint with distinctive secrets, all log output captured",
 "Tests do not capture log output and never reach the failure branches that log their context.",
 [TE,PW,AC,RP,"log/text.go"],
 [("attributes chosen for each log call","all endpoints and grants")],
 None,["logger interface","HTTP responses"])

p("C21","Generated PKCE verifiers are unpredictable and never repeat",
 "Code verifiers produced by the library's generator never repeat, however many callers generate at the same instant and whatever the clock reads: frozen, coarse, rewound or restarted at the same time. Knowing when a verifier was generated does not allow reproducing it. Every verifier is 43 or more characters of the unreserved alphabet and passes its own plain and S256 challenge.",
 ["schedules","histories"],
 "every number of concurrent callers at one clock reading, every clock rewind or restart replaying the same instant",
 "No test calls the generator; repetition needs a frozen or repeated clock.",
 ["pkce/crypto.go"],
 [("GenRandomCodeVerifier","pkce/crypto.go")],
 None,["generated values"])

p("C22","The key set endpoint publishes exactly the registered public keys",
 "The key set served contains each registered key once, under its key id, with the modulus and exponent of the registered public key, as well-formed JSON with a JSON content type, identically for every request and concurrent reader. Public parameters only are published. A key file that is missing, short, torn or not an RSA public key is refused when it is registered and never published in part.",
 ["inputs","fault_sequences","schedules"],
 "every set of keys, registration order, truncation or flipped byte of a key file, concurrent readers and slow or failing response writers",
 "The existing test cannot be built here (a dependency is missing) and compares one fixed document.",
 ["jwk_endpoint.go","crypto/key.go"],
 [("PublicKeysJWK, LoadPublicKeyFrom*","crypto/key.go"),("Handler","jwk_endpoint.go")],
 None,["HTTP response","registration outcome"])

p("C23","Every request gets exactly one complete, uncacheable, standard answer",
 "Every request that reaches a token endpoint or protector gets exactly one answer whose status, headers and body agree: JSON with the standard error member and matching status for refusals, the standard members for token responses, a challenge with each 401, and Cache-Control no-store and Pragma no-cache on everything the token endpoint says about tokens or errors. Authorization answers are exactly one redirect, one form (itself uncacheable), one error screen, one login or one consent screen, never two of these and never none. This holds for any request bytes, method, truncated or failing body, and any data-layer failure, and the endpoint never panics.",
 ["inputs","fault_sequences","schedules"],
 "arbitrary methods, headers, encodings and bodies, bodies cut or failing at any byte, failing response writers, every data-layer failure",
 "Tests send well-formed requests over a healthy connection and check selected fields.",
 [TE,RP,AE,"oauth_error/errors.go","grant/interface.go","authorization/response.go"],
 [("success, fail, failWithAuthHeader","token_endpoint.go"),("unauthorize","resource_protector.go"),("response handlers","authorization/response.go")],
 None,["HTTP responses","host callbacks"])

p("N01","OAuth errors serialize faithfully",
 "An OAuth error renders to JSON, to a query string and to a Bearer challenge that each decode back to the same type, description and URI. Unset members are omitted.",
 ["inputs"],"all descriptions and URIs",
 "Tests sample a few strings.",
 ["oauth_error/errors.go"],[("JSON, Header, Query","oauth_error/errors.go")])
p("N02","The Basic-auth helper round-trips credentials",
 "A credential pair turned into an Authorization header by the helper is recovered by its reading side for every pair it documents. The helper never panics on malformed headers.",
 ["inputs"],"all credential strings",
 "Tests sample two pairs.",
 ["basic_auth/util.go"],[("Token, Header, FindClientCredential","basic_auth/util.go")])
p("N03","Scope, prompt and flow parsing depend on the word set only",
 "Scope, prompt and response-type words mean the same in any order. Removing a scope removes every occurrence and nothing else.",
 ["inputs"],"all word lists",
 "Tests sample a few lists.",
 ["scope/util.go","prompt/util.go","flow/flow.go"],[("Split, Include, Remove, Same, JudgeByResponseType","scope/util.go, prompt/util.go, flow/flow.go")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
