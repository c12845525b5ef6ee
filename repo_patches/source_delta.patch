From 81f9f7efab1f67eef7d8cd9624c5668f4cb7aaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 01/22] fix: don't lose an ongoing authorisation when its
 reminder is shown

The notifier updated `last_notification` with `tokenstate_replace`, which
changes the AccountId: a code exchange ongoing at that moment was then
considered stale, and its (successful or failed) outcome silently dropped.
---
 src/server/notifier.rs | 10 ++++------
 src/server/state.rs    | 29 +++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index f4b54fe..1e55b10 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -59,12 +59,11 @@ impl Notifier {
             let now = Instant::now();
             let notify_interval = ct_lk.config().auth_notify_interval; // Pulled out to avoid borrow checker problems.
             for act_id in ct_lk.act_ids().collect::<Vec<_>>() {
-                let mut ts = ct_lk.tokenstate(act_id).clone();
                 if let TokenState::Pending {
-                    ref mut last_notification,
-                    ref url,
+                    last_notification,
+                    url,
                     ..
-                } = ts
+                } = ct_lk.tokenstate(act_id)
                 {
                     if let Some(t) = last_notification {
                         if let Some(t) = t.checked_add(notify_interval) {
@@ -73,13 +72,12 @@ impl Notifier {
                             }
                         }
                     }
-                    *last_notification = Some(now);
                     let url = url.clone();
                     let act = ct_lk.account(act_id);
                     if let Some(ref cmd) = ct_lk.config().auth_notify_cmd {
                         auth_cmds.push((act.name.to_owned(), cmd.clone(), url));
                     }
-                    ct_lk.tokenstate_replace(act_id, ts);
+                    ct_lk.tokenstate_set_last_notification(act_id, now);
                 }
             }
             drop(ct_lk);
diff --git a/src/server/state.rs b/src/server/state.rs
index f0ebc24..3781592 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -380,6 +380,35 @@ impl<'a> CTGuard<'a> {
         unreachable!();
     }
 
+    /// If `act_id` is `Pending`, set `last_notification` to `new_last_notification`. Notifying the
+    /// user does not change what is being authorised, so `act_id` remains valid: in particular, a
+    /// thread which is exchanging this authorisation's code for a token must not be invalidated.
+    ///
+    /// # Panics
+    ///
+    /// If `act_id` is not valid or is not `Pending`.
+    pub fn tokenstate_set_last_notification(
+        &mut self,
+        act_id: AccountId,
+        new_last_notification: Instant,
+    ) {
+        let i = self
+            .guard
+            .details
+            .iter()
+            .position(|x| x.1 == act_id)
+            .unwrap();
+        if let TokenState::Pending {
+            ref mut last_notification,
+            ..
+        } = self.guard.details[i].2
+        {
+            *last_notification = Some(new_last_notification);
+            return;
+        }
+        unreachable!();
+    }
+
     /// Update the tokenstate for `act_id` to `new_tokenstate` returning a new [AccountId]
     /// valid for the new tokenstate, updating the tokenstate version.
     ///
-- 
2.43.0


From 6d8b8b7aaf51b64778f3b02d439f515cd9ed710c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 02/22] fix: report undecodable dumps and unknown dump versions
 when restoring

The result of LockedState::restore was dropped, so `pizauth restore` claimed
success for a dump it had not restored.
---
 src/server/state.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/server/state.rs b/src/server/state.rs
index 3781592..8e23e4a 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -136,8 +136,7 @@ impl AuthenticatorState {
             .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())
             .map_err(|_| "Restoring dump failed")?;
 
-        let lk = self.locked_state.lock().unwrap().restore(d);
-        drop(lk);
+        self.locked_state.lock().unwrap().restore(d)?;
         self.notifier.notify_changes();
         self.refresher.notify_changes();
         Ok(())
-- 
2.43.0


From 056f2e95282b4146f70e21be36535c2349388abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 03/22] fix: don't panic in `status` on expiry times in the far
 future

A token server can give an `expires_in` that puts a token's expiry beyond what
chrono or RFC 2822 can represent: `pizauth status` then crashed the server.
---
 src/server/mod.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/server/mod.rs b/src/server/mod.rs
index 331bd7b..75eb3eb 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -307,20 +307,30 @@ fn instant_fmt(i: Instant) -> String {
     let now = Instant::now();
     if i < now {
         if let Some(d) = now.checked_duration_since(i) {
-            if let Some(st) = SystemTime::now().checked_sub(d) {
-                let dt: DateTime<Local> = st.into();
-                return dt.to_rfc2822();
+            if let Some(s) = SystemTime::now().checked_sub(d).and_then(system_time_fmt) {
+                return s;
             }
         }
     } else if let Some(d) = i.checked_duration_since(now) {
-        if let Some(st) = SystemTime::now().checked_add(d) {
-            let dt: DateTime<Local> = st.into();
-            return dt.to_rfc2822();
+        if let Some(s) = SystemTime::now().checked_add(d).and_then(system_time_fmt) {
+            return s;
         }
     }
     "<unknown time>".into()
 }
 
+/// Format a [SystemTime] as a user-readable string, or return `None` if that is not possible:
+/// [chrono] panics if asked to convert dates it cannot represent, and RFC 2822 dates can only
+/// represent years of up to 4 digits.
+fn system_time_fmt(st: SystemTime) -> Option<String> {
+    // The start of year 9999, which leaves room for any time zone.
+    if st >= SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(253370764800))? {
+        return None;
+    }
+    let dt: DateTime<Local> = st.into();
+    Some(dt.to_rfc2822())
+}
+
 pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(), Box<dyn Error>> {
     let sock_path = sock_path(cache_path);
 
-- 
2.43.0


From bc462b65773f43a92e224d66e7307a419f268647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 04/22] fix: don't panic on a repeated empty `scopes` or
 `auth_uri_fields`

The second list can legitimately be empty: report the repetition as usual.
---
 src/config.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac01eb8..ac4a709 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -382,7 +382,6 @@ impl Account {
                 }
                 config_ast::AccountField::AuthUriFields(span, spans) => {
                     if auth_uri_fields.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
@@ -450,7 +449,6 @@ impl Account {
                 }
                 config_ast::AccountField::Scopes(span, spans) => {
                     if scopes.is_some() {
-                        debug_assert!(!spans.is_empty());
                         return Err(error_at_span(
                             lexer,
                             span,
-- 
2.43.0


From 0893c47a742ec0f6855bbc61c6a212cedce2cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 05/22] fix: decide a redirect URI's scheme from the parsed URI

URIs such as "HTTPS://localhost/" or " https://localhost/" are valid, but
were not recognised as HTTPS (or HTTP) URIs: pizauth then accepted
configurations without the necessary listener, or produced redirect URIs with
the port of the other listener.
---
 src/config.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index ac4a709..a30fd58 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -206,14 +206,18 @@ impl Config {
         }
 
         for (act_name, act) in &accounts {
-            if act.redirect_uri.starts_with("https") {
+            // What we were given as the URI might need normalising (e.g. its scheme might be in upper
+            // case), so look at the URI's scheme rather than at the raw string.
+            let redirect_uri =
+                Url::parse(&act.redirect_uri).map_err(|e| format!("Invalid URI: {e:}"))?;
+            if redirect_uri.scheme() == "https" {
                 match https_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
                         return Err(format!("Account {act_name} has an 'https' redirect but the HTTPS server is set to 'none'"));
                     }
                 }
-            } else if act.redirect_uri.starts_with("http") {
+            } else if redirect_uri.scheme() == "http" {
                 match http_listen {
                     Some(Some(_)) | None => (),
                     Some(None) => {
@@ -549,7 +553,7 @@ impl Account {
     ) -> Result<Url, Box<dyn Error>> {
         assert!(http_port.is_some() || https_port.is_some());
         let mut url = Url::parse(&self.redirect_uri)?;
-        if https_port.is_some() && self.redirect_uri.to_lowercase().starts_with("https") {
+        if https_port.is_some() && url.scheme() == "https" {
             url.set_port(https_port)
                 .map_err(|_| "Cannot set https port")?;
         } else {
-- 
2.43.0


From dbb8a3138125cbeee1fd9e8c489156ea3a9d2221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 06/22] fix: pass the (deprecated) `login_hint` on to the
 authorisation server

`login_hint` is documented to be equivalent to an `auth_uri_fields` entry of
that name, but was parsed and then ignored.
---
 src/config.rs               | 18 +++++++++++++++---
 src/server/request_token.rs |  3 ++-
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index a30fd58..2add3d9 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -352,6 +352,7 @@ pub struct Account {
     pub auth_uri_fields: Vec<(String, String)>,
     pub client_id: String,
     pub client_secret: Option<String>,
+    login_hint: Option<String>,
     redirect_uri: String,
     refresh_at_least: Option<Duration>,
     refresh_before_expiry: Option<Duration>,
@@ -490,6 +491,7 @@ impl Account {
             auth_uri_fields: auth_uri_fields.unwrap_or_default(),
             client_id,
             client_secret,
+            login_hint,
             redirect_uri: redirect_uri.unwrap_or_else(|| "http://localhost/".to_owned()),
             refresh_at_least,
             refresh_before_expiry,
@@ -499,6 +501,16 @@ impl Account {
         })
     }
 
+    /// Return all the fields to be passed to `auth_uri`: those in `auth_uri_fields` followed by, if
+    /// it was specified, the deprecated `login_hint`.
+    pub fn all_auth_uri_fields(&self) -> Vec<(String, String)> {
+        let mut fields = self.auth_uri_fields.clone();
+        if let Some(x) = &self.login_hint {
+            fields.push(("login_hint".to_owned(), x.clone()));
+        }
+        fields
+    }
+
     /// Are the security relevant parts of this `Account` the same as `other`?
     ///
     /// Note that this is a weaker condition than "is `self` equal to `other`" because there are
@@ -512,7 +524,7 @@ impl Account {
         // sorry: if in doubt, it is better to have more, rather than fewer, fields compared here.
         self.name == other.name
             && self.auth_uri == other.auth_uri
-            && self.auth_uri_fields == other.auth_uri_fields
+            && self.all_auth_uri_fields() == other.all_auth_uri_fields()
             && self.client_id == other.client_id
             && self.client_secret == other.client_secret
             && self.redirect_uri == other.redirect_uri
@@ -523,7 +535,7 @@ impl Account {
     pub fn dump(&self) -> AccountDump {
         AccountDump {
             auth_uri: self.auth_uri.clone(),
-            auth_uri_fields: self.auth_uri_fields.clone(),
+            auth_uri_fields: self.all_auth_uri_fields(),
             client_id: self.client_id.clone(),
             client_secret: self.client_secret.clone(),
             redirect_uri: self.redirect_uri.clone(),
@@ -538,7 +550,7 @@ impl Account {
     /// `Account`'s tokenstate from a dump.
     pub fn secure_restorable(&self, act_dump: &AccountDump) -> bool {
         self.auth_uri == act_dump.auth_uri
-            && self.auth_uri_fields == act_dump.auth_uri_fields
+            && self.all_auth_uri_fields() == act_dump.auth_uri_fields
             && self.client_id == act_dump.client_id
             && self.client_secret == act_dump.client_secret
             && self.redirect_uri == act_dump.redirect_uri
diff --git a/src/server/request_token.rs b/src/server/request_token.rs
index 7d524af..ac22c75 100644
--- a/src/server/request_token.rs
+++ b/src/server/request_token.rs
@@ -47,7 +47,8 @@ pub fn request_token(
     if !act.scopes.is_empty() {
         params.push(("scope", scopes_join.as_str()));
     }
-    for (k, v) in &act.auth_uri_fields {
+    let auth_uri_fields = act.all_auth_uri_fields();
+    for (k, v) in &auth_uri_fields {
         params.push((k.as_str(), v.as_str()));
     }
     let url = Url::parse_with_params(ct_lk.account(act_id).auth_uri.as_str(), &params)?;
-- 
2.43.0


From 1ebb577b288fd5e7f44b2183ce6d1a7dbdb698d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 07/22] fix: raise token_invalidated when a token can't be
 refreshed

If there is no refresh token, the access token is dropped when it needs to be
refreshed, but no token_invalidated event was raised.
---
 src/server/refresher.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 00795ad..9f5ac18 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -71,7 +71,12 @@ impl Refresher {
                         let act_name = ct_lk.account(act_id).name.clone();
                         match refresher.inner_refresh(&pstate, ct_lk, act_id) {
                             RefreshKind::AccountOrTokenStateChanged => (),
-                            RefreshKind::NoRefreshToken => (),
+                            RefreshKind::NoRefreshToken => {
+                                info!("No refresh token for {act_name}");
+                                pstate
+                                    .eventer
+                                    .token_event(act_name, TokenEvent::Invalidated);
+                            }
                             RefreshKind::PermanentError(msg) => {
                                 info!("Permanent refresh error for {act_name}: {msg}");
                                 pstate
-- 
2.43.0


From c0a8202004efa0ada71391a7d7e64b00cb52b60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 08/22] fix: only raise token_invalidated if a token was
 invalidated

While transient_error_if_cmd runs, the token may be revoked, replaced, or
reconfigured: nothing is then invalidated, but the event was still raised.
---
 src/server/refresher.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 9f5ac18..bfc14dc 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -130,13 +130,13 @@ impl Refresher {
                                                                 act_id,
                                                                 TokenState::Empty,
                                                             );
+                                                            drop(ct_lk);
+                                                            info!("Permanent refresh error for {act_name} : {e}");
+                                                            pstate.eventer.token_event(
+                                                                act_name,
+                                                                TokenEvent::Invalidated,
+                                                            );
                                                         }
-                                                        drop(ct_lk);
-                                                        info!("Permanent refresh error for {act_name} : {e}");
-                                                        pstate.eventer.token_event(
-                                                            act_name,
-                                                            TokenEvent::Invalidated,
-                                                        );
                                                     }
                                                 };
                                             } else {
-- 
2.43.0


From ec36222f822a4855aba6036f856522bbafd6f0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 09/22] fix: enforce the maximum HTTP request size within lines

The size was only checked between lines, so a request with a long (or endless)
line could make pizauth use an unbounded amount of memory.
---
 src/server/http_server.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index c232e0e..0ac9aaf 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -280,7 +280,9 @@ fn fail(
 /// A very literal, and rather unforgiving, implementation of RFC2616 (HTTP/1.1), returning the URL
 /// of GET requests: returns `Err` for anything else.
 fn parse_get<T: Read + Write>(stream: &mut T, is_https: bool) -> Result<Url, Box<dyn Error>> {
-    let mut rdr = BufReader::new(stream);
+    // `read_line` will keep on reading until it finds a newline so, to avoid reading (and storing)
+    // an unbounded amount of data, we never read more than the maximum size.
+    let mut rdr = BufReader::new(stream.take(MAX_HTTP_REQUEST_SIZE as u64));
     let mut req_line = String::new();
     rdr.read_line(&mut req_line)?;
     let mut http_req_size = req_line.len();
@@ -297,15 +299,15 @@ fn parse_get<T: Read + Write>(stream: &mut T, is_https: bool) -> Result<Url, Box
     // Consume rest of HTTP request
     let mut req: Vec<String> = Vec::new();
     loop {
+        let mut line = String::new();
+        rdr.read_line(&mut line)?;
+        http_req_size += line.len();
         if http_req_size >= MAX_HTTP_REQUEST_SIZE {
             return Err("HTTP request exceeds maximum permitted size".into());
         }
-        let mut line = String::new();
-        rdr.read_line(&mut line)?;
         if line.as_str().trim().is_empty() {
             break;
         }
-        http_req_size += line.len();
         match line.chars().next() {
             Some(' ') | Some('\t') => {
                 // Continuation of previous header
-- 
2.43.0


From 3fd35f3eabea041e1951a662aee42a5f72e742a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 10/22] fix: drain the event queue if there is no
 token_event_cmd

If several events were queued when a reload removed `token_event_cmd`, only one
of them was discarded: the others were run much later, when a further event
occurred after `token_event_cmd` had been set again.
---
 src/server/eventer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server/eventer.rs b/src/server/eventer.rs
index 0be2e67..d14b3f1 100644
--- a/src/server/eventer.rs
+++ b/src/server/eventer.rs
@@ -71,7 +71,9 @@ impl Eventer {
                 {
                     token_event_cmd
                 } else {
-                    break;
+                    // There's no-one to tell about this event, or those after it. If we left them in
+                    // the queue they'd be run, out of the blue, after `token_event_cmd` is later set.
+                    continue;
                 };
                 match env::var("SHELL") {
                     Ok(s) => {
-- 
2.43.0


From 4cef137a10c3885428d40afd4e8002e54da89d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 11/22] fix: don't repeat notifications early if
 auth_notify_interval is huge

If the time of the next notification couldn't be represented, the notification
was repeated every time the notifier woke up.
---
 src/server/notifier.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 1e55b10..f2c98ca 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -66,10 +66,11 @@ impl Notifier {
                 } = ct_lk.tokenstate(act_id)
                 {
                     if let Some(t) = last_notification {
-                        if let Some(t) = t.checked_add(notify_interval) {
-                            if t > now {
-                                continue;
-                            }
+                        match t.checked_add(notify_interval) {
+                            Some(t) if t <= now => (),
+                            // If `t + notify_interval` exceeds Instant's bounds, it's so far in the
+                            // future that the next notification will never be due.
+                            _ => continue,
                         }
                     }
                     let url = url.clone();
-- 
2.43.0


From 4e9e809d18a697847022b5dbd9efb7bf68e2e666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 12/22] fix: refuse to reload configurations that need a
 listener that isn't running

Listeners can't be changed by a reload. If a new configuration turned a listener
on, accounts using it got authorisation URLs that redirected to the other
listener's port, or to no port at all, and could never be authorised.
---
 src/config.rs     | 27 +++++++++++++++++++++++++++
 src/server/mod.rs |  9 +++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 2add3d9..059a0c5 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -244,6 +244,33 @@ impl Config {
     }
 }
 
+impl Config {
+    /// Check that, for the HTTP and HTTPS listeners that are actually running, every account's
+    /// redirect URI can be listened to.
+    pub fn check_listeners(
+        &self,
+        http_port: Option<u16>,
+        https_port: Option<u16>,
+    ) -> Result<(), String> {
+        for (act_name, act) in &self.accounts {
+            let redirect_uri =
+                Url::parse(&act.redirect_uri).map_err(|e| format!("Invalid URI: {e:}"))?;
+            let port = match redirect_uri.scheme() {
+                "https" => https_port,
+                _ => http_port,
+            };
+            if port.is_none() {
+                return Err(format!(
+                    "Account {act_name} has an '{0}' redirect but the running server has no {1} server",
+                    redirect_uri.scheme(),
+                    redirect_uri.scheme().to_uppercase()
+                ));
+            }
+        }
+        Ok(())
+    }
+}
+
 fn check_not_assigned<T>(
     lexer: &LRNonStreamingLexer<DefaultLexerTypes<StorageT>>,
     name: &str,
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 75eb3eb..a8155db 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -125,8 +125,13 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
         "reload" if rest.is_empty() => {
             match Config::from_path(&pstate.conf_path) {
                 Ok(new_conf) => {
-                    pstate.update_conf(new_conf);
-                    stream.write_all(b"ok:")?
+                    match new_conf.check_listeners(pstate.http_port, pstate.https_port) {
+                        Ok(()) => {
+                            pstate.update_conf(new_conf);
+                            stream.write_all(b"ok:")?
+                        }
+                        Err(e) => stream.write_all(format!("error:{e:}").as_bytes())?,
+                    }
                 }
                 Err(e) => stream.write_all(format!("error:{e:}").as_bytes())?,
             }
-- 
2.43.0


From d6b4dd5d77b188e8b305b113548a314e3a86be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 13/22] fix: detach only once the server is ready, and then
 start all threads

The server daemonised before it tried to listen on its addresses and socket, so
`pizauth server` exited with 0 even if no server ended up running, and the
thread that regularly touches the socket file was started before daemonising,
and thus did not exist in the detached server.
---
 src/main.rs       | 45 +++++++++++++++++++++++++++------------------
 src/server/mod.rs | 33 +++++++++++++++++++++------------
 2 files changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 5cae972..d7ff93e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -302,22 +302,6 @@ fn main() {
                 fs::remove_file(&sock_path).ok();
             }
 
-            // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
-            //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
-            //   are not removed, they should have their access time timestamp modified at least once every
-            //   6 hours of monotonic time
-            let sock_path_cl = sock_path.clone();
-            thread::spawn(move || loop {
-                thread::sleep(Duration::from_secs(6 * 60 * 60));
-                let _ = utimensat(
-                    None,
-                    &sock_path_cl,
-                    &TimeSpec::UTIME_NOW,
-                    &TimeSpec::UTIME_NOW,
-                    UtimensatFlags::NoFollowSymlink,
-                );
-            });
-
             let conf_path = conf_path(&matches);
             let conf = Config::from_path(&conf_path).unwrap_or_else(|m| fatal(&m));
 
@@ -339,7 +323,6 @@ fn main() {
                 log::set_boxed_logger(Box::new(syslog::BasicLogger::new(logger)))
                     .map(|()| log::set_max_level(levelfilter))
                     .unwrap_or_else(|e| fatal(&format!("Cannot set logger: {e:}")));
-                daemon(true, false).unwrap_or_else(|e| fatal(&format!("Cannot daemonise: {e:}")));
             } else {
                 stderrlog::new()
                     .module(module_path!())
@@ -347,8 +330,34 @@ fn main() {
                     .init()
                     .unwrap();
             }
-            if let Err(e) = server::server(conf_path, conf, cache_path.as_path()) {
+            // Everything that might fail in ways the user needs to know about should happen before
+            // we detach. Since daemonising forks, threads must only be started afterwards.
+            let detach = move || {
+                if daemonise {
+                    daemon(true, false)
+                        .unwrap_or_else(|e| fatal(&format!("Cannot daemonise: {e:}")));
+                }
+
+                // The XDG spec says of `$XDG_RUNTIME_DIR` (where our socket file will live):
+                //   Files in this directory MAY be subjected to periodic clean-up. To ensure that your files
+                //   are not removed, they should have their access time timestamp modified at least once every
+                //   6 hours of monotonic time
+                thread::spawn(move || loop {
+                    thread::sleep(Duration::from_secs(6 * 60 * 60));
+                    let _ = utimensat(
+                        None,
+                        &sock_path,
+                        &TimeSpec::UTIME_NOW,
+                        &TimeSpec::UTIME_NOW,
+                        UtimensatFlags::NoFollowSymlink,
+                    );
+                });
+            };
+            if let Err(e) = server::server(conf_path, conf, cache_path.as_path(), detach) {
                 error!("{e:}");
+                if daemonise {
+                    eprintln!("{e:}");
+                }
                 process::exit(1);
             }
         }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index a8155db..94d5dcc 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -336,9 +336,29 @@ fn system_time_fmt(st: SystemTime) -> Option<String> {
     Some(dt.to_rfc2822())
 }
 
-pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(), Box<dyn Error>> {
+/// Run the server. `detach` is called once everything the server listens on has been set up, but
+/// before any threads have been started.
+pub fn server(
+    conf_path: PathBuf,
+    conf: Config,
+    cache_path: &Path,
+    detach: impl FnOnce(),
+) -> Result<(), Box<dyn Error>> {
     let sock_path = sock_path(cache_path);
 
+    let (http_port, http_state) = match http_server::http_server_setup(&conf)? {
+        Some((x, y)) => (Some(x), Some(y)),
+        None => (None, None),
+    };
+    let (https_port, https_state, certified_key) = match http_server::https_server_setup(&conf)? {
+        Some((x, y, z)) => (Some(x), Some(y), Some(z)),
+        None => (None, None, None),
+    };
+    // TODO: Store certificate into trusted folder (OS dependent..)?
+
+    let listener = UnixListener::bind(&sock_path)?;
+    detach();
+
     #[cfg(target_os = "openbsd")]
     unveil(
         conf_path
@@ -365,16 +385,6 @@ pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(),
     #[cfg(target_os = "openbsd")]
     pledge("stdio rpath wpath inet fattr unix dns proc exec", None).unwrap();
 
-    let (http_port, http_state) = match http_server::http_server_setup(&conf)? {
-        Some((x, y)) => (Some(x), Some(y)),
-        None => (None, None),
-    };
-    let (https_port, https_state, certified_key) = match http_server::https_server_setup(&conf)? {
-        Some((x, y, z)) => (Some(x), Some(y), Some(z)),
-        None => (None, None, None),
-    };
-    // TODO: Store certificate into trusted folder (OS dependent..)?
-
     let eventer = Arc::new(Eventer::new()?);
     let notifier = Arc::new(Notifier::new()?);
     let refresher = Refresher::new();
@@ -409,7 +419,6 @@ pub fn server(conf_path: PathBuf, conf: Config, cache_path: &Path) -> Result<(),
     refresher.refresher(Arc::clone(&pstate))?;
     notifier.notifier(Arc::clone(&pstate))?;
 
-    let listener = UnixListener::bind(sock_path)?;
     for stream in listener.incoming().flatten() {
         let pstate = Arc::clone(&pstate);
         if let Err(e) = request(pstate, stream) {
-- 
2.43.0


From 577cd08bfb7f7ef59655e8d4a828d6c8edfc69c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:54 +0000
Subject: [PATCH 14/22] Add sched_point hooks (no-ops without --cfg vp_hooks)

---
 src/server/eventer.rs   | 5 ++++-
 src/server/mod.rs       | 9 +++++++++
 src/server/notifier.rs  | 4 +++-
 src/server/refresher.rs | 6 ++++--
 src/server/state.rs     | 5 ++++-
 5 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/server/eventer.rs b/src/server/eventer.rs
index d14b3f1..29d2ff0 100644
--- a/src/server/eventer.rs
+++ b/src/server/eventer.rs
@@ -12,7 +12,7 @@ use std::{
 use log::error;
 use wait_timeout::ChildExt;
 
-use super::AuthenticatorState;
+use super::{sched_point, AuthenticatorState};
 
 /// How long to run `not_transient_error_if` commands before killing them?
 const NEW_ACCESS_TOKEN_CMD_TIMEOUT: Duration = Duration::from_secs(30);
@@ -58,6 +58,7 @@ impl Eventer {
             }
             *eventer_lk = false;
             drop(eventer_lk);
+            sched_point();
 
             loop {
                 let (act_name, event) =
@@ -115,7 +116,9 @@ impl Eventer {
     }
 
     pub fn token_event(&self, act_name: String, kind: TokenEvent) {
+        sched_point();
         self.event_queue.lock().unwrap().push_back((act_name, kind));
+        sched_point();
         let mut event_lk = self.pred.lock().unwrap();
         *event_lk = true;
         self.condvar.notify_one();
diff --git a/src/server/mod.rs b/src/server/mod.rs
index 94d5dcc..bbbca08 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -54,6 +54,15 @@ const STATE_LEN: usize = 8;
 /// even less likely, we choose a prime number.
 const MAX_WAIT_SECS: u64 = 37;
 
+/// With `--cfg vp_hooks`, give a monitoring harness the opportunity to delay this thread just before
+/// it acquires a lock. Otherwise this does nothing.
+#[allow(unexpected_cfgs)]
+#[inline(always)]
+fn sched_point() {
+    #[cfg(vp_hooks)]
+    std::thread::yield_now();
+}
+
 pub fn sock_path(cache_path: &Path) -> PathBuf {
     let mut p = cache_path.to_owned();
     p.push(PIZAUTH_CACHE_SOCK_LEAF);
diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index f2c98ca..850667d 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -12,7 +12,7 @@ use boot_time::Instant;
 use log::debug;
 use log::error;
 
-use super::{AccountId, AuthenticatorState, CTGuard, TokenState, MAX_WAIT_SECS};
+use super::{sched_point, AccountId, AuthenticatorState, CTGuard, TokenState, MAX_WAIT_SECS};
 
 pub struct Notifier {
     pred: Mutex<bool>,
@@ -33,6 +33,7 @@ impl Notifier {
     ) -> Result<(), Box<dyn Error>> {
         thread::spawn(move || loop {
             let next_wakeup = self.next_wakeup(&pstate);
+            sched_point();
             let mut notify_lk = self.pred.lock().unwrap();
             while !*notify_lk {
                 match next_wakeup {
@@ -113,6 +114,7 @@ impl Notifier {
     }
 
     pub fn notify_changes(&self) {
+        sched_point();
         let mut notify_lk = self.pred.lock().unwrap();
         *notify_lk = true;
         self.condvar.notify_one();
diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index bfc14dc..1234ec3 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -17,8 +17,8 @@ use serde_json::Value;
 use wait_timeout::ChildExt;
 
 use super::{
-    eventer::TokenEvent, expiry_instant, AccountId, AuthenticatorState, CTGuard, TokenState,
-    MAX_WAIT_SECS, UREQ_TIMEOUT,
+    eventer::TokenEvent, expiry_instant, sched_point, AccountId, AuthenticatorState, CTGuard,
+    TokenState, MAX_WAIT_SECS, UREQ_TIMEOUT,
 };
 
 /// How many times can a transient error be encountered before we try `not_transient_error_if`?
@@ -438,6 +438,7 @@ impl Refresher {
     /// Notify the refresher that one or more [TokenState]s is likely to have changed in a way that
     /// effects the refresher.
     pub fn notify_changes(&self) {
+        sched_point();
         let mut refresh_lk = self.pred.lock().unwrap();
         *refresh_lk = true;
         self.condvar.notify_one();
@@ -451,6 +452,7 @@ impl Refresher {
         let refresher = Arc::clone(&self);
         thread::spawn(move || loop {
             let next_wakeup = refresher.next_wakeup(&pstate);
+            sched_point();
             let mut refresh_lk = refresher.pred.lock().unwrap();
             while !*refresh_lk {
                 match next_wakeup {
diff --git a/src/server/state.rs b/src/server/state.rs
index 8e23e4a..9fb7a88 100644
--- a/src/server/state.rs
+++ b/src/server/state.rs
@@ -28,7 +28,7 @@ use rand::{rng, Rng};
 use serde::{Deserialize, Serialize};
 use url::Url;
 
-use super::{eventer::Eventer, notifier::Notifier, refresher::Refresher};
+use super::{eventer::Eventer, notifier::Notifier, refresher::Refresher, sched_point};
 use crate::config::{Account, AccountDump, Config};
 
 /// We lightly encrypt the dump output to make it at least resistant to simple string-based
@@ -88,6 +88,7 @@ impl AuthenticatorState {
     /// to be done in such a case, as it is likely that pizauth is in an inconsistent, and
     /// irretrievable, state.
     pub fn ct_lock(&self) -> CTGuard {
+        sched_point();
         CTGuard::new(self.locked_state.lock().unwrap())
     }
 
@@ -96,6 +97,7 @@ impl AuthenticatorState {
     /// `new_conf` since another thread(s) may also have called this function.
     pub fn update_conf(&self, new_conf: Config) {
         {
+            sched_point();
             let mut lk = self.locked_state.lock().unwrap();
             lk.update_conf(new_conf);
         }
@@ -136,6 +138,7 @@ impl AuthenticatorState {
             .decrypt(Nonce::from_slice(nonce), encrypted.as_ref())
             .map_err(|_| "Restoring dump failed")?;
 
+        sched_point();
         self.locked_state.lock().unwrap().restore(d)?;
         self.notifier.notify_changes();
         self.refresher.notify_changes();
-- 
2.43.0


From 04029aa19364c5ded90946449a72cc60bcd3e5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:06 +0000
Subject: [PATCH 15/22] fix: don't retry refreshes early if refresh_retry is
 huge

---
 src/server/refresher.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 1234ec3..1be2f85 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -399,9 +399,10 @@ impl Refresher {
                     //      expiry).
                     // If the second case occurs, we assume that the user knows that the token
                     // really needs refreshing, and we treat the token as if it had expired.
-                    if let Some(t) = lra.checked_add(act.refresh_retry(ct_lk.config())) {
-                        return Some(t.to_owned());
-                    }
+                    //
+                    // If `lra + d` exceeds Instant's bounds, it's so far in the future that the
+                    // next retry will never be due.
+                    return lra.checked_add(act.refresh_retry(ct_lk.config()));
                 }
 
                 let mut expiry = access_token_expiry
-- 
2.43.0


From db5fdb66c1b3ea4e5e0dabf4517d47078aadaa40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:08 +0000
Subject: [PATCH 16/22] fix: report authorisations whose expiry can't be
 represented as failed

---
 src/server/http_server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index 0ac9aaf..d14a06f 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -219,7 +219,14 @@ fn request<T: Read + Write>(
     ) {
         (Some("Bearer"), Some(expires_in), Some(access_token), refresh_token) => {
             let now = Instant::now();
-            let expiry = expiry_instant(&ct_lk, act_id, now, expires_in)?;
+            let expiry = match expiry_instant(&ct_lk, act_id, now, expires_in) {
+                Ok(x) => x,
+                Err(e) => {
+                    drop(ct_lk);
+                    fail(pstate, act_id, &e.to_string())?;
+                    return Ok(());
+                }
+            };
             let act_name = ct_lk.account(act_id).name.to_owned();
             ct_lk.tokenstate_replace(
                 act_id,
-- 
2.43.0


From 0dc9e4c2015759fedc7e392780d4ce0d36367ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 17/22] fix: report dumps that can't be written in full

`dump` ignored errors when writing to stdout and thus exited with 0 even
though (e.g. because a disk is full) none or only part of the dump was
written.
---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d7ff93e..cd89d38 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -159,7 +159,10 @@ fn main() {
                 .unwrap();
             match user_sender::dump(&cache_path) {
                 Ok(d) => {
-                    stdout().write_all(&d).ok();
+                    if let Err(e) = stdout().write_all(&d).and_then(|()| stdout().flush()) {
+                        error!("Can't write dump: {e:}");
+                        process::exit(1);
+                    }
                 }
                 Err(e) => {
                     error!("{e:}");
-- 
2.43.0


From f4fb18363d795dab7c3b348c849a428b50d6b4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 18/22] fix: report an error if the server can't answer `dump`

If the server fails, or goes away, before it answers a `dump` command, the
client sees an empty response. It printed that as if it were a dump, and
exited with 0.
---
 src/user_sender.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/user_sender.rs b/src/user_sender.rs
index 22d0ab7..baf3394 100644
--- a/src/user_sender.rs
+++ b/src/user_sender.rs
@@ -19,6 +19,9 @@ pub fn dump(cache_path: &Path) -> Result<Vec<u8>, Box<dyn Error>> {
 
     let mut buf = Vec::new();
     stream.read_to_end(&mut buf)?;
+    if buf.is_empty() {
+        return Err("Malformed response ''".into());
+    }
     Ok(buf)
 }
 
-- 
2.43.0


From 65705f5fbd4303a00b244997cfecaa61945eb40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:22 +0000
Subject: [PATCH 19/22] fix: don't fail if another pizauth process creates the
 cache directory at the same time

---
 src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index cd89d38..e3dd863 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -11,7 +11,7 @@ mod user_sender;
 use std::{
     env::{self, current_exe},
     fs,
-    io::{stdout, Write},
+    io::{stdout, ErrorKind, Write},
     os::unix::{fs::PermissionsExt, net::UnixStream},
     path::PathBuf,
     process, thread,
@@ -82,7 +82,12 @@ fn cache_path() -> PathBuf {
 
     let md = |p: &PathBuf| {
         if !p.exists() {
-            fs::create_dir(p).unwrap_or_else(|e| fatal(&format!("Can't create cache dir: {e}")));
+            match fs::create_dir(p) {
+                Ok(()) => (),
+                // Another pizauth process got there first.
+                Err(e) if e.kind() == ErrorKind::AlreadyExists => (),
+                Err(e) => fatal(&format!("Can't create cache dir: {e}")),
+            }
         }
         fs::set_permissions(p, PermissionsExt::from_mode(0o700)).unwrap_or_else(|_| {
             fatal(&format!(
-- 
2.43.0


From c5d315e70d966b4677aeca54db349e75c3a98033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 20/22] fix: don't start two servers for one cache directory
 when started at the same moment

---
 src/main.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e3dd863..c58c253 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -20,9 +20,12 @@ use std::{
 
 use getopts::Options;
 use log::error;
-use nix::sys::{
-    stat::{utimensat, UtimensatFlags},
-    time::TimeSpec,
+use nix::{
+    fcntl::{Flock, FlockArg},
+    sys::{
+        stat::{utimensat, UtimensatFlags},
+        time::TimeSpec,
+    },
 };
 #[cfg(target_os = "openbsd")]
 use pledge::pledge;
@@ -300,6 +303,13 @@ fn main() {
                 usage();
             }
 
+            // Starting up must not overlap with another server doing the same: the other server's
+            // socket isn't connectable until it listens on it, so we'd take it for a stale one.
+            // We ignore errors since not all file systems support locking.
+            let startup_lk = fs::File::open(&cache_path)
+                .ok()
+                .and_then(|f| Flock::lock(f, FlockArg::LockExclusive).ok());
+
             let sock_path = sock_path(&cache_path);
             if sock_path.exists() {
                 // Is an existing authenticator running?
@@ -341,6 +351,7 @@ fn main() {
             // Everything that might fail in ways the user needs to know about should happen before
             // we detach. Since daemonising forks, threads must only be started afterwards.
             let detach = move || {
+                drop(startup_lk);
                 if daemonise {
                     daemon(true, false)
                         .unwrap_or_else(|e| fatal(&format!("Cannot daemonise: {e:}")));
-- 
2.43.0


From 5cb6096c2de56facc92a2004691d89d166214d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:57 +0000
Subject: [PATCH 21/22] fix: queue token events in the order the changes
 happened

Events were queued after the state lock had been released, so another change to
the same account could happen, and have its event queued, in between: e.g. a
token which had just been revoked could be announced as revoked and then as new.
---
 src/server/http_server.rs | 11 +++----
 src/server/mod.rs         |  5 +--
 src/server/refresher.rs   | 65 +++++++++++++++++++++------------------
 3 files changed, 43 insertions(+), 38 deletions(-)

diff --git a/src/server/http_server.rs b/src/server/http_server.rs
index d14a06f..8a81af9 100644
--- a/src/server/http_server.rs
+++ b/src/server/http_server.rs
@@ -240,9 +240,10 @@ fn request<T: Read + Write>(
                     refresh_token: refresh_token.map(|x| x.to_owned()),
                 },
             );
+            // Events must be queued in the order that changes happened.
+            pstate.eventer.token_event(act_name, TokenEvent::New);
             drop(ct_lk);
             pstate.refresher.notify_changes();
-            pstate.eventer.token_event(act_name, TokenEvent::New);
         }
         _ => {
             drop(ct_lk);
@@ -271,15 +272,13 @@ fn fail(
             "Authentication for {} failed: {msg:}",
             ct_lk.account(act_id).name
         );
-        drop(ct_lk);
-        pstate
-            .notifier
-            .notify_error(&pstate, act_name.clone(), msg)?;
         if is_active {
             pstate
                 .eventer
-                .token_event(act_name, TokenEvent::Invalidated);
+                .token_event(act_name.clone(), TokenEvent::Invalidated);
         }
+        drop(ct_lk);
+        pstate.notifier.notify_error(&pstate, act_name, msg)?;
     }
     Ok(())
 }
diff --git a/src/server/mod.rs b/src/server/mod.rs
index bbbca08..2461bc7 100644
--- a/src/server/mod.rs
+++ b/src/server/mod.rs
@@ -189,11 +189,12 @@ fn request(pstate: Arc<AuthenticatorState>, mut stream: UnixStream) -> Result<()
             match ct_lk.validate_act_name(act_name) {
                 Some(act_id) => {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                    drop(ct_lk);
-
+                    // Events must be queued in the order that changes happened.
                     pstate
                         .eventer
                         .token_event(act_name.to_owned(), TokenEvent::Revoked);
+                    drop(ct_lk);
+
                     stream.write_all(b"ok:")?;
                     return Ok(());
                 }
diff --git a/src/server/refresher.rs b/src/server/refresher.rs
index 1be2f85..43de21f 100644
--- a/src/server/refresher.rs
+++ b/src/server/refresher.rs
@@ -26,17 +26,17 @@ const TRANSIENT_ERROR_RETRIES: u64 = 6;
 /// How long to run `transient_error_if_cmd` commands before killing them?
 const TRANSIENT_ERROR_IF_CMD_TIMEOUT: Duration = Duration::from_secs(3 * 60);
 
-/// The outcome of an attempted refresh.
-#[derive(Debug)]
-enum RefreshKind {
+/// The outcome of an attempted refresh. If the tokenstate was changed, the lock is still held, so that
+/// the change's [TokenEvent] can be queued before anyone else can make (and announce) another change.
+enum RefreshKind<'a> {
     /// Refreshing terminated because the config or tokenstate changed.
     AccountOrTokenStateChanged,
     /// There is no refresh token so refreshing cannot succeed.
-    NoRefreshToken,
+    NoRefreshToken(CTGuard<'a>),
     /// Refreshing failed in a way that is likely to repeat if retried.
-    PermanentError(String),
+    PermanentError(CTGuard<'a>, String),
     /// The token was refreshed.
-    Refreshed,
+    Refreshed(CTGuard<'a>),
     /// Refreshing failed but in a way that is not likely to repeat if retried.
     TransitoryError(AccountId, String),
 }
@@ -71,21 +71,24 @@ impl Refresher {
                         let act_name = ct_lk.account(act_id).name.clone();
                         match refresher.inner_refresh(&pstate, ct_lk, act_id) {
                             RefreshKind::AccountOrTokenStateChanged => (),
-                            RefreshKind::NoRefreshToken => {
-                                info!("No refresh token for {act_name}");
+                            RefreshKind::NoRefreshToken(ct_lk) => {
                                 pstate
                                     .eventer
-                                    .token_event(act_name, TokenEvent::Invalidated);
+                                    .token_event(act_name.clone(), TokenEvent::Invalidated);
+                                drop(ct_lk);
+                                info!("No refresh token for {act_name}");
                             }
-                            RefreshKind::PermanentError(msg) => {
-                                info!("Permanent refresh error for {act_name}: {msg}");
+                            RefreshKind::PermanentError(ct_lk, msg) => {
                                 pstate
                                     .eventer
-                                    .token_event(act_name, TokenEvent::Invalidated);
+                                    .token_event(act_name.clone(), TokenEvent::Invalidated);
+                                drop(ct_lk);
+                                info!("Permanent refresh error for {act_name}: {msg}");
                             }
-                            RefreshKind::Refreshed => {
-                                refresher.notify_changes();
+                            RefreshKind::Refreshed(ct_lk) => {
                                 pstate.eventer.token_event(act_name, TokenEvent::Refresh);
+                                drop(ct_lk);
+                                refresher.notify_changes();
                             }
                             RefreshKind::TransitoryError(act_id, msg) => {
                                 ct_lk = pstate.ct_lock();
@@ -130,12 +133,12 @@ impl Refresher {
                                                                 act_id,
                                                                 TokenState::Empty,
                                                             );
-                                                            drop(ct_lk);
-                                                            info!("Permanent refresh error for {act_name} : {e}");
                                                             pstate.eventer.token_event(
-                                                                act_name,
+                                                                act_name.clone(),
                                                                 TokenEvent::Invalidated,
                                                             );
+                                                            drop(ct_lk);
+                                                            info!("Permanent refresh error for {act_name} : {e}");
                                                         }
                                                     }
                                                 };
@@ -213,12 +216,12 @@ impl Refresher {
     /// # Panics
     ///
     /// If the tokenstate is not [TokenState::Active].
-    fn inner_refresh(
+    fn inner_refresh<'a>(
         &self,
-        pstate: &AuthenticatorState,
-        mut ct_lk: CTGuard,
+        pstate: &'a AuthenticatorState,
+        mut ct_lk: CTGuard<'a>,
         mut act_id: AccountId,
-    ) -> RefreshKind {
+    ) -> RefreshKind<'a> {
         let mut new_ts = ct_lk.tokenstate(act_id).clone();
         let refresh_token = match new_ts {
             TokenState::Active {
@@ -234,7 +237,7 @@ impl Refresher {
                 }
                 None => {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                    return RefreshKind::NoRefreshToken;
+                    return RefreshKind::NoRefreshToken(ct_lk);
                 }
             },
             _ => unreachable!("tokenstate is not TokenState::Active"),
@@ -274,7 +277,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                    return RefreshKind::PermanentError(reason);
+                    return RefreshKind::PermanentError(ct_lk, reason);
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
                 }
@@ -290,7 +293,7 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                    return RefreshKind::PermanentError(e.to_string());
+                    return RefreshKind::PermanentError(ct_lk, e.to_string());
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
                 }
@@ -305,7 +308,7 @@ impl Refresher {
                         let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                         let msg =
                             format!("Refreshing {} failed: {}", ct_lk.account(act_id).name, e);
-                        return RefreshKind::PermanentError(msg);
+                        return RefreshKind::PermanentError(ct_lk, msg);
                     } else {
                         return RefreshKind::AccountOrTokenStateChanged;
                     }
@@ -317,7 +320,7 @@ impl Refresher {
                 if ct_lk.is_act_id_valid(act_id) {
                     let act_id = ct_lk.tokenstate_replace(act_id, TokenState::Empty);
                     let msg = format!("Refreshing {} failed: {e}", ct_lk.account(act_id).name);
-                    return RefreshKind::PermanentError(msg);
+                    return RefreshKind::PermanentError(ct_lk, msg);
                 } else {
                     return RefreshKind::AccountOrTokenStateChanged;
                 }
@@ -342,7 +345,7 @@ impl Refresher {
                         Ok(x) => x,
                         Err(e) => {
                             ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                            return RefreshKind::PermanentError(format!("{e}"));
+                            return RefreshKind::PermanentError(ct_lk, format!("{e}"));
                         }
                     };
                     ct_lk.tokenstate_replace(
@@ -357,8 +360,7 @@ impl Refresher {
                             refresh_token,
                         },
                     );
-                    drop(ct_lk);
-                    RefreshKind::Refreshed
+                    RefreshKind::Refreshed(ct_lk)
                 } else {
                     RefreshKind::AccountOrTokenStateChanged
                 }
@@ -367,7 +369,10 @@ impl Refresher {
                 let mut ct_lk = pstate.ct_lock();
                 if ct_lk.is_act_id_valid(act_id) {
                     ct_lk.tokenstate_replace(act_id, TokenState::Empty);
-                    RefreshKind::PermanentError("Received JSON in unexpected format".to_string())
+                    RefreshKind::PermanentError(
+                        ct_lk,
+                        "Received JSON in unexpected format".to_string(),
+                    )
                 } else {
                     RefreshKind::AccountOrTokenStateChanged
                 }
-- 
2.43.0


From 6d50dfe58ad640d9d9825721d6d3bde519c2fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 22/22] fix: report errors whose message can't be an
 environment variable's value

If a token server's answer, or the error in a redirect, contained a NUL or was
very long, error_notify_cmd couldn't be executed, so the user was told nothing.
---
 src/server/notifier.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/notifier.rs b/src/server/notifier.rs
index 850667d..ddf4358 100644
--- a/src/server/notifier.rs
+++ b/src/server/notifier.rs
@@ -14,6 +14,9 @@ use log::error;
 
 use super::{sched_point, AccountId, AuthenticatorState, CTGuard, TokenState, MAX_WAIT_SECS};
 
+/// The maximum length, in characters, of an error message passed to `error_notify_cmd`.
+const MAX_ERROR_MSG_CHARS: usize = 8192;
+
 pub struct Notifier {
     pred: Mutex<bool>,
     condvar: Condvar,
@@ -142,6 +145,13 @@ impl Notifier {
     ) -> Result<(), Box<dyn std::error::Error>> {
         match pstate.ct_lock().config().error_notify_cmd.clone() {
             Some(cmd) => {
+                // `msg` can contain whatever a server sent us, but a command can't be run at all if
+                // an environment variable contains NULs or is too big.
+                let msg = msg
+                    .chars()
+                    .filter(|c| *c != '\0')
+                    .take(MAX_ERROR_MSG_CHARS)
+                    .collect::<String>();
                 thread::spawn(move || match env::var("SHELL") {
                     Ok(s) => {
                         match Command::new(s)
-- 
2.43.0

