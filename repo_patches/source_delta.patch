From 2ddd52c34de499eb64daab878e9d49ad1ff1cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:30 +0000
Subject: [PATCH 01/45] fix: do not crash when the only queue node is being
 processed

---
 src/queue.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/queue.c b/src/queue.c
index 0fc4146..417fcc0 100644
--- a/src/queue.c
+++ b/src/queue.c
@@ -121,6 +121,13 @@ int queue_put(const float complex *buffer, const size_t len, queue *queue) {
         }
     }
     struct queue_node *to_fill;
+    if (queue->first_free_node == NULL && queue->last_filled_node == NULL) {
+        // the only node is being processed right now
+        // nothing to overwrite => drop the buffer
+        pthread_mutex_unlock(&queue->mutex);
+        fprintf(stderr, "<3>queue is full\n");
+        return 0;
+    }
     if (queue->first_free_node == NULL) {
         // queue is full
         // overwrite last node
-- 
2.43.0


From 721ad06d6893638e15ae25ebc9862b6aea5ab0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:51:56 +0000
Subject: [PATCH 02/45] fix: retry socket writes interrupted by a signal

---
 src/tcp_utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_utils.c b/src/tcp_utils.c
index 6fee683..063a910 100644
--- a/src/tcp_utils.c
+++ b/src/tcp_utils.c
@@ -9,6 +9,9 @@ int tcp_utils_write_data(uint8_t *buffer, size_t total_len_bytes, int client_soc
     while (left > 0) {
         ssize_t written = write(client_socket, buffer + (total_len_bytes - left), left);
         if (written < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
             return -1;
         }
         left -= written;
-- 
2.43.0


From 720a3d259273bbafb830a896acc75ac44acab1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:24 +0000
Subject: [PATCH 03/45] fix: release the request buffer when it could not be
 read fully

---
 src/api_utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/api_utils.c b/src/api_utils.c
index 92b8d92..2345f9d 100644
--- a/src/api_utils.c
+++ b/src/api_utils.c
@@ -47,6 +47,7 @@ int api_utils_read_tx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     TxRequest *result = tx_request__unpack(NULL, header->message_length, buffer);
@@ -68,6 +69,7 @@ int api_utils_read_rx_request(int socket, const struct message_header *header, s
     }
     int code = tcp_utils_read_data(buffer, header->message_length, socket);
     if (code != 0) {
+        free(buffer);
         return -1;
     }
     RxRequest *result = rx_request__unpack(NULL, header->message_length, buffer);
-- 
2.43.0


From 441873f5706e3403400417b6363d9d7bda87abd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:23 +0000
Subject: [PATCH 04/45] fix: refuse transmit requests without modulator
 settings

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b6ecc7a..6e6b2e6 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -117,6 +117,10 @@ int validate_tx_request(const struct TxRequest *req, uint32_t client_id, const s
             return -1;
         }
     }
+    if (req->fsk_settings == NULL) {
+        fprintf(stderr, "<3>[%d] missing fsk_settings parameter\n", client_id);
+        return -1;
+    }
     return 0;
 }
 
-- 
2.43.0


From 5a3c4609d0d77d8f6fb3c82495b09c072790033d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:23 +0000
Subject: [PATCH 05/45] fix: refuse decimation factors that do not fit the
 demodulator

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 6e6b2e6..6298ea0 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -149,6 +149,10 @@ int validate_rx_request(const struct RxRequest *req, uint32_t client_id, const s
         fprintf(stderr, "<3>[%d] missing demod_decimation parameter\n", client_id);
         return -1;
     }
+    if (req->demod_decimation > UINT8_MAX) {
+        fprintf(stderr, "<3>[%d] unsupported demod_decimation: %u\n", client_id, req->demod_decimation);
+        return -1;
+    }
     if (req->demod_destination != DEMOD_DESTINATION__FILE && req->demod_destination != DEMOD_DESTINATION__SOCKET && req->demod_destination != DEMOD_DESTINATION__BOTH) {
         fprintf(stderr, "<3>[%d] unknown demod_destination: %d\n", client_id, req->demod_destination);
         return -1;
-- 
2.43.0


From 26b9d71d4ff40f1b03c5e8d0d87430cbd71476a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:23 +0000
Subject: [PATCH 06/45] fix: refuse transmit data from clients that have no
 modulator

---
 src/tcp_server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 6298ea0..539a99f 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -189,6 +189,12 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
         api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
         return;
     }
+    if (worker->fsk_mod == NULL) {
+        fprintf(stderr, "<3>[%d] tx data is not supported for this client\n", worker->id);
+        api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
+        tx_data__free_unpacked(data, NULL);
+        return;
+    }
     size_t left = data->data.len;
     uint32_t processed = 0;
     while (left > 0) {
-- 
2.43.0


From 132742f7b251c1119f0db35f76438fa278bc9dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:23 +0000
Subject: [PATCH 07/45] fix: do not drop frequency corrected samples of long
 transmit payloads

---
 src/tcp_server.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 539a99f..52f05d8 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -225,6 +225,12 @@ void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
             output_len = signal_output_len;
         }
 
+        if (output == NULL || output_len == 0) {
+            fprintf(stderr, "<3>[%d] unable to modulate request fully\n", worker->id);
+            api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+            break;
+        }
+
         if (worker->tx_dump_file != NULL) {
             size_t n_written = fwrite(output, sizeof(float complex), output_len, worker->tx_dump_file);
             if (n_written < output_len) {
@@ -549,7 +555,8 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
         }
     }
     int samples_per_symbol = (int) ((double) tcp_worker->tx_req->tx_sampling_freq / tcp_worker->tx_req->mod_baud_rate);
-    uint32_t max_output_buffer = samples_per_symbol * server->server_config->buffer_size;
+    // every byte has 8 symbols
+    uint32_t max_output_buffer = 8 * samples_per_symbol * server->server_config->buffer_size;
     if (tcp_worker->tx_req->doppler != NULL) {
         time_t start;
         if (tcp_worker->tx_req->file_settings != NULL) {
-- 
2.43.0


From 556c6b938ef9b1219f41e17f8189d0b5526e0029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:43 +0000
Subject: [PATCH 08/45] fix: keep the session in step with the client after
 timeouts and unsupported messages

---
 src/api_utils.h  |  2 ++
 src/tcp_server.c | 33 +++++++++++++++++++++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/api_utils.h b/src/api_utils.h
index 7309a5d..56e07ac 100644
--- a/src/api_utils.h
+++ b/src/api_utils.h
@@ -5,6 +5,8 @@
 #include "api.h"
 #include "api.pb-c.h"
 
+extern uint32_t MAX_MESSAGE_LENGTH;
+
 int api_utils_read_header(int socket, struct message_header *header);
 
 int api_utils_read_rx_request(int socket, const struct message_header *header, struct RxRequest **request);
diff --git a/src/tcp_server.c b/src/tcp_server.c
index 52f05d8..b8f22b4 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -17,6 +17,7 @@
 #include "tcp_server.h"
 #include "linked_list.h"
 #include "api_utils.h"
+#include "tcp_utils.h"
 #include "dsp_worker.h"
 #include "sdr_worker.h"
 #include "dsp/gfsk_mod.h"
@@ -181,8 +182,29 @@ void tcp_server_write_response_and_close(int client_socket, ResponseStatus statu
     close(client_socket);
 }
 
+// skip message body so that the next header can be read
+static void tcp_worker_skip_body(struct tcp_worker *worker, uint32_t body_length) {
+    uint8_t buffer[1024];
+    uint32_t left = body_length;
+    while (left > 0 && worker->is_running) {
+        size_t batch = left < sizeof(buffer) ? left : sizeof(buffer);
+        size_t actually_read = 0;
+        int code = tcp_utils_read_data_partially(buffer, batch, &actually_read, worker->client_socket);
+        left -= actually_read;
+        if (code == -1) {
+            return;
+        }
+    }
+}
+
 void handle_tx_data(struct tcp_worker *worker, struct message_header *header) {
     TxData *data = NULL;
+    if (header->message_length > MAX_MESSAGE_LENGTH) {
+        fprintf(stderr, "<3>[%d] tx request is too long: %u\n", worker->id, header->message_length);
+        api_utils_write_response(worker->client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INVALID_REQUEST);
+        tcp_worker_skip_body(worker, header->message_length);
+        return;
+    }
     int code = api_utils_read_tx_data(worker->client_socket, header, &data);
     if (code != 0) {
         fprintf(stderr, "<3>[%d] unable to read tx request fully\n", worker->id);
@@ -264,9 +286,12 @@ static void *tcp_worker_callback(void *arg) {
     struct tcp_worker *worker = (struct tcp_worker *) arg;
     uint32_t id = worker->id;
     fprintf(stdout, "[%d] tcp_worker is starting\n", id);
+    struct message_header header;
+    size_t header_read = 0;
     while (worker->is_running) {
-        struct message_header header;
-        int code = api_utils_read_header(worker->client_socket, &header);
+        size_t actually_read = 0;
+        int code = tcp_utils_read_data_partially((uint8_t *) &header + header_read, sizeof(struct message_header) - header_read, &actually_read, worker->client_socket);
+        header_read += actually_read;
         if (code < -1) {
             // read timeout happened. it's ok.
             // client already sent all information we need
@@ -276,8 +301,11 @@ static void *tcp_worker_callback(void *arg) {
             fprintf(stdout, "[%d] client disconnected\n", id);
             break;
         }
+        header_read = 0;
+        header.message_length = ntohl(header.message_length);
         if (header.protocol_version != PROTOCOL_VERSION) {
             fprintf(stderr, "<3>[%d] unsupported protocol: %d\n", id, header.protocol_version);
+            tcp_worker_skip_body(worker, header.message_length);
             continue;
         }
         if (header.type == TYPE_SHUTDOWN) {
@@ -288,6 +316,7 @@ static void *tcp_worker_callback(void *arg) {
             handle_tx_data(worker, &header);
         } else {
             fprintf(stderr, "<3>[%d] unsupported request: %d\n", id, header.type);
+            tcp_worker_skip_body(worker, header.message_length);
         }
     }
     //terminate dsp_worker if any
-- 
2.43.0


From 29661560b154e0783225e16f43e27b1a160c1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:43 +0000
Subject: [PATCH 09/45] fix: start reading samples only when the first client
 is attached

---
 src/sdr_worker.c | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index a05f742..3455f2f 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -14,6 +14,7 @@ struct sdr_worker_t {
     uint32_t id;
     linked_list *dsp_configs;
     pthread_t sdr_thread;
+    bool sdr_thread_started;
     pthread_mutex_t mutex;
 };
 
@@ -68,14 +69,6 @@ int sdr_worker_create(uint32_t id, struct sdr_rx *rx, sdr_device *rx_device, sdr
     result->mutex = (pthread_mutex_t) PTHREAD_MUTEX_INITIALIZER;
     result->rx_device = rx_device;
 
-    pthread_t sdr_thread;
-    int code = pthread_create(&sdr_thread, NULL, &sdr_worker_callback, result);
-    if (code != 0) {
-        sdr_worker_destroy(result);
-        return code;
-    }
-    result->sdr_thread = sdr_thread;
-
     *worker = result;
     return 0;
 }
@@ -118,7 +111,9 @@ void sdr_worker_destroy(void *data) {
     if (worker->rx_device != NULL) {
         worker->rx_device->stop_rx(worker->rx_device->plugin);
     }
-    pthread_join(worker->sdr_thread, NULL);
+    if (worker->sdr_thread_started) {
+        pthread_join(worker->sdr_thread, NULL);
+    }
     //destroy the rx device
     if (worker->rx_device != NULL) {
         worker->rx_device->destroy(worker->rx_device->plugin);
@@ -139,9 +134,22 @@ void sdr_worker_destroy(void *data) {
     fprintf(stdout, "[%d] sdr_worker stopped\n", id);
 }
 
+static bool sdr_worker_is_same(void *id, void *data) {
+    return *(dsp_worker **) id == data;
+}
+
 int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     pthread_mutex_lock(&sdr->mutex);
     int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
+    if (code == 0 && !sdr->sdr_thread_started) {
+        // start reading only when there is someone to deliver the data to
+        code = pthread_create(&sdr->sdr_thread, NULL, &sdr_worker_callback, sdr);
+        if (code == 0) {
+            sdr->sdr_thread_started = true;
+        } else {
+            linked_list_remove_by_id(&worker, &sdr_worker_is_same, &sdr->dsp_configs);
+        }
+    }
     pthread_mutex_unlock(&sdr->mutex);
     return code;
 }
\ No newline at end of file
-- 
2.43.0


From f1f778ced80d048eb73343e77524633df97420f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 10/45] fix: keep thread handle untouched when the reader
 thread can not start

---
 src/sdr_worker.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 3455f2f..c374c48 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -143,8 +143,10 @@ int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
     int code = linked_list_add(worker, &dsp_worker_destroy, &sdr->dsp_configs);
     if (code == 0 && !sdr->sdr_thread_started) {
         // start reading only when there is someone to deliver the data to
-        code = pthread_create(&sdr->sdr_thread, NULL, &sdr_worker_callback, sdr);
+        pthread_t sdr_thread;
+        code = pthread_create(&sdr_thread, NULL, &sdr_worker_callback, sdr);
         if (code == 0) {
+            sdr->sdr_thread = sdr_thread;
             sdr->sdr_thread_started = true;
         } else {
             linked_list_remove_by_id(&worker, &sdr_worker_is_same, &sdr->dsp_configs);
-- 
2.43.0


From 91fad83eafd038de4cc088b28cbec3e1fb0095e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 11/45] fix: start the client session only when it is
 completely set up

---
 src/tcp_server.c | 87 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 65 insertions(+), 22 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index b8f22b4..45756d8 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -33,6 +33,8 @@
 #define M_PI 3.14159265358979323846
 #endif
 
+#define RX_CLIENT_NOT_STARTED 1
+
 struct tcp_worker {
     struct RxRequest *rx_req;
     struct TxRequest *tx_req;
@@ -442,6 +444,15 @@ int tcp_server_init_tx_device(uint32_t id, struct TxRequest *req, tcp_server *se
     return 0;
 }
 
+static void destroy_sdr_device(sdr_device *device) {
+    device->destroy(device->plugin);
+    free(device);
+}
+
+static bool tcp_worker_is_same(void *id, void *data) {
+    return id == data;
+}
+
 int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct tcp_worker *tcp_worker) {
     struct sdr_rx *rx = NULL;
     int code = tcp_worker_convert(tcp_worker->rx_req, &rx);
@@ -463,6 +474,7 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
             // take id from the first tcp client
             code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
             if (code != 0) {
+                destroy_sdr_device(rx_device);
                 free(rx);
                 return -RESPONSE_DETAILS_INTERNAL_ERROR;
             }
@@ -498,6 +510,7 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
+            destroy_sdr_device(rx_device);
             free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
@@ -513,6 +526,7 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         sdr_worker *sdr = NULL;
         code = sdr_worker_create(tcp_worker->id, rx, rx_device, &sdr);
         if (code != 0) {
+            destroy_sdr_device(rx_device);
             free(rx);
             return -RESPONSE_DETAILS_INTERNAL_ERROR;
         }
@@ -523,14 +537,38 @@ int tcp_server_init_rx_device(dsp_worker *dsp_worker, tcp_server *server, struct
         return -1;
     }
 
-    code = sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr);
+    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
     if (code != 0) {
+        // nothing else is attached yet, so this destroys sdr_worker unless it is shared
+        sdr_worker_destroy_by_dsp_worker_id(tcp_worker->id, tcp_worker->sdr);
+        tcp_worker->sdr = NULL;
         return -RESPONSE_DETAILS_INTERNAL_ERROR;
     }
 
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
+    // the response must be the first message. the data is sent as soon as dsp_worker is attached
+    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
+
+    code = sdr_worker_add_dsp_worker(dsp_worker, tcp_worker->sdr);
+    bool attached = (code == 0);
+    if (attached) {
+        pthread_t client_thread;
+        code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
+        if (code == 0) {
+            tcp_worker->client_thread = client_thread;
+        }
+    }
     if (code != 0) {
-        return -RESPONSE_DETAILS_INTERNAL_ERROR;
+        fprintf(stderr, "<3>[%d] unable to start the client\n", tcp_worker->id);
+        linked_list_remove_by_id(tcp_worker, &tcp_worker_is_same, &server->tcp_workers);
+        sdr_worker_destroy_by_dsp_worker_id(tcp_worker->id, tcp_worker->sdr);
+        tcp_worker->sdr = NULL;
+        if (!attached) {
+            dsp_worker_destroy(dsp_worker);
+        }
+        close(tcp_worker->client_socket);
+        tcp_worker_destroy(tcp_worker);
+        // client was already notified
+        return RX_CLIENT_NOT_STARTED;
     }
 
     server->rx_initialized = true;
@@ -637,23 +675,36 @@ void handle_tx_client(int client_socket, struct message_header *header, tcp_serv
 
     tcp_worker->is_running = true;
 
-    pthread_t client_thread;
-    code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
+    pthread_mutex_lock(&server->mutex);
+    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
+    pthread_mutex_unlock(&server->mutex);
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        if (tcp_worker->tx_device != NULL) {
+            destroy_sdr_device(tcp_worker->tx_device);
+        }
         tcp_worker_destroy(tcp_worker);
         return;
     }
-    tcp_worker->client_thread = client_thread;
 
-    code = linked_list_add(tcp_worker, &tcp_worker_destroy, &server->tcp_workers);
+    // the response must be sent before any response from the client's own thread
+    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
+
+    pthread_t client_thread;
+    code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
     if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
+        fprintf(stderr, "<3>[%d] unable to start the client\n", tcp_worker->id);
+        pthread_mutex_lock(&server->mutex);
+        linked_list_remove_by_id(tcp_worker, &tcp_worker_is_same, &server->tcp_workers);
+        pthread_mutex_unlock(&server->mutex);
+        close(client_socket);
+        if (tcp_worker->tx_device != NULL) {
+            destroy_sdr_device(tcp_worker->tx_device);
+        }
         tcp_worker_destroy(tcp_worker);
         return;
     }
-
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
+    tcp_worker->client_thread = client_thread;
     fprintf(stdout, "[%d] mod: %s, tx freq: %" PRIu64 ", tx offset: %" PRId64 ", tx sampling_rate: %" PRIu64 ", baud: %d\n", tcp_worker->id, protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->tx_req->mod_type)->name, tcp_worker->tx_req->tx_center_freq,
             tcp_worker->tx_req->tx_offset,
             tcp_worker->tx_req->tx_sampling_freq,
@@ -696,17 +747,8 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
 
     tcp_worker->is_running = true;
 
-    pthread_t client_thread;
-    int code = pthread_create(&client_thread, NULL, &tcp_worker_callback, tcp_worker);
-    if (code != 0) {
-        tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
-        tcp_worker_destroy(tcp_worker);
-        return;
-    }
-    tcp_worker->client_thread = client_thread;
-
     dsp_worker *dsp_worker = NULL;
-    code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
+    int code = dsp_worker_create(tcp_worker->id, tcp_worker->client_socket, server->server_config, tcp_worker->rx_req, &dsp_worker);
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, RESPONSE_DETAILS_INTERNAL_ERROR);
         tcp_worker_destroy(tcp_worker);
@@ -716,15 +758,16 @@ void handle_rx_client(int client_socket, struct message_header *header, tcp_serv
     pthread_mutex_lock(&server->mutex);
     code = tcp_server_init_rx_device(dsp_worker, server, tcp_worker);
     pthread_mutex_unlock(&server->mutex);
+    if (code == RX_CLIENT_NOT_STARTED) {
+        return;
+    }
     if (code != 0) {
         tcp_server_write_response_and_close(client_socket, RESPONSE_STATUS__FAILURE, -code);
-        // this will trigger sdr_worker destroy if any
         tcp_worker_destroy(tcp_worker);
         dsp_worker_destroy(dsp_worker);
         return;
     }
 
-    api_utils_write_response(tcp_worker->client_socket, RESPONSE_STATUS__SUCCESS, tcp_worker->id);
     fprintf(stdout, "[%d] demod: %s, rx freq: %" PRIu64 ", rx offset: %" PRId64 ", rx sampling_rate: %" PRIu64 ", baud: %d, destination: %s doppler: %d\n", tcp_worker->id,
             protobuf_c_enum_descriptor_get_value(&modem_type__descriptor, tcp_worker->rx_req->demod_type)->name, tcp_worker->rx_req->rx_center_freq, tcp_worker->rx_req->rx_offset,
             tcp_worker->rx_req->rx_sampling_freq, tcp_worker->rx_req->demod_baud_rate, protobuf_c_enum_descriptor_get_value(&demod_destination__descriptor, tcp_worker->rx_req->demod_destination)->name, tcp_worker->rx_req->doppler != NULL);
-- 
2.43.0


From ba62c6b1d7f33ef0e0aa9dd0c90882bb204292e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 12/45] fix: do not share the receiver that is being destroyed
 by another client

---
 src/tcp_server.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 45756d8..2a1e3e4 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -323,7 +323,11 @@ static void *tcp_worker_callback(void *arg) {
     }
     //terminate dsp_worker if any
     //terminate sdr_worker if no more dsp_workers there
+    //other clients should not find it from now on
+    pthread_mutex_lock(&worker->server->mutex);
     sdr_worker_destroy_by_dsp_worker_id(worker->id, worker->sdr);
+    worker->sdr = NULL;
+    pthread_mutex_unlock(&worker->server->mutex);
     //terminate tx device if any
     if (worker->tx_device != NULL) {
         worker->tx_device->destroy(worker->tx_device->plugin);
-- 
2.43.0


From cbebd4127165edb2a2dafc91cd72c5db9c6cb070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 13/45] fix: keep accepting clients after a failed accept

---
 src/tcp_server.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 2a1e3e4..ef58656 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -784,7 +784,15 @@ static void *acceptor_worker(void *arg) {
         int client_socket;
         int addrlen = sizeof(address);
         if ((client_socket = accept(server->server_socket, (struct sockaddr *) &address, (socklen_t *) &addrlen)) < 0) {
-            break;
+            if (!server->is_running || errno == EBADF || errno == EINVAL || errno == ENOTSOCK) {
+                break;
+            }
+            // the failure is related to the connection or temporary lack of resources
+            perror("unable to accept the connection");
+            if (errno != EINTR && errno != ECONNABORTED) {
+                sleep(1);
+            }
+            continue;
         }
 
         struct timeval tv;
-- 
2.43.0


From 6448e9ead5ad01d533c1b08dad0b89f760cc1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:29 +0000
Subject: [PATCH 14/45] fix: release the listening socket on failed start and
 on stop

---
 src/tcp_server.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index ef58656..3815259 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -858,7 +858,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->tcp_workers = NULL;
 
     int server_socket = socket(AF_INET, SOCK_STREAM, 0);
-    if (server_socket == 0) {
+    if (server_socket < 0) {
         free(result);
         perror("socket creation failed");
         return -1;
@@ -872,6 +872,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     result->client_counter = -1;
     int opt = 1;
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEADDR, &opt, sizeof(opt))) {
+        close(server_socket);
         free(result);
         perror("setsockopt - SO_REUSEADDR");
         return -1;
@@ -879,6 +880,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 #ifdef SO_REUSEPORT
     if (setsockopt(server_socket, SOL_SOCKET, SO_REUSEPORT, &opt, sizeof(opt))) {
+        close(server_socket);
         free(result);
         perror("setsockopt - SO_REUSEPORT");
         return -1;
@@ -888,6 +890,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     struct sockaddr_in address;
     address.sin_family = AF_INET;
     if (inet_pton(AF_INET, config->bind_address, &address.sin_addr) <= 0) {
+        close(server_socket);
         free(result);
         fprintf(stderr, "invalid address: %s\n", config->bind_address);
         return -1;
@@ -895,11 +898,13 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     address.sin_port = htons(config->port);
 
     if (bind(server_socket, (struct sockaddr *) &address, sizeof(address)) < 0) {
+        close(server_socket);
         free(result);
         perror("bind failed");
         return -1;
     }
     if (listen(server_socket, 3) < 0) {
+        close(server_socket);
         free(result);
         perror("listen failed");
         return -1;
@@ -908,6 +913,7 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
     pthread_t acceptor_thread;
     int code = pthread_create(&acceptor_thread, NULL, &acceptor_worker, result);
     if (code != 0) {
+        close(server_socket);
         free(result);
         return -1;
     }
@@ -919,6 +925,9 @@ int tcp_server_create(struct server_config *config, tcp_server **server) {
 
 void tcp_server_join_thread(tcp_server *server) {
     pthread_join(server->acceptor_thread, NULL);
+    if (server->server_socket >= 0) {
+        close(server->server_socket);
+    }
     free(server);
 }
 
@@ -932,6 +941,8 @@ void tcp_server_destroy(tcp_server *server) {
     // execute shutdown first
     int code = shutdown(server->server_socket, SHUT_RDWR);
     if (code != 0) {
-        close(server->server_socket);
+        int server_socket = server->server_socket;
+        server->server_socket = -1;
+        close(server_socket);
     }
 }
-- 
2.43.0


From 1d379c7910d28fc2f1d7d361926ff46afe04f645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:16 +0000
Subject: [PATCH 15/45] fix: keep the accept error while logging it

---
 src/tcp_server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tcp_server.c b/src/tcp_server.c
index 3815259..ecb8993 100644
--- a/src/tcp_server.c
+++ b/src/tcp_server.c
@@ -784,12 +784,13 @@ static void *acceptor_worker(void *arg) {
         int client_socket;
         int addrlen = sizeof(address);
         if ((client_socket = accept(server->server_socket, (struct sockaddr *) &address, (socklen_t *) &addrlen)) < 0) {
-            if (!server->is_running || errno == EBADF || errno == EINVAL || errno == ENOTSOCK) {
+            int accept_errno = errno;
+            if (!server->is_running || accept_errno == EBADF || accept_errno == EINVAL || accept_errno == ENOTSOCK) {
                 break;
             }
             // the failure is related to the connection or temporary lack of resources
             perror("unable to accept the connection");
-            if (errno != EINTR && errno != ECONNABORTED) {
+            if (accept_errno != EINTR && accept_errno != ECONNABORTED) {
                 sleep(1);
             }
             continue;
-- 
2.43.0


From f7c6947ae6c6870b61cf37ea4c19cfdca2a29c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:24 +0000
Subject: [PATCH 16/45] fix: share the receiver only between clients with the
 same sampling rate

---
 src/sdr_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index c374c48..be7ba0f 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -80,7 +80,7 @@ bool sdr_worker_find_closest(void *id, void *data) {
     struct sdr_rx *rx = (struct sdr_rx *) id;
     sdr_worker *worker = (sdr_worker *) data;
     if (worker->rx->rx_center_freq == rx->rx_center_freq &&
-        worker->rx->rx_sampling_freq >= rx->rx_sampling_freq &&
+        worker->rx->rx_sampling_freq == rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
         return true;
     }
-- 
2.43.0


From 911649ae69d5bf606f908651c5d049e3ddcd536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:24 +0000
Subject: [PATCH 17/45] fix: deliver the samples that were read before a
 timeout

---
 src/sdr_worker.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index be7ba0f..3da009c 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -35,7 +35,7 @@ static void *sdr_worker_callback(void *arg) {
     struct array_t output;
     while (true) {
         int code = worker->rx_device->sdr_process_rx(&output.output, &output.output_len, worker->rx_device->plugin);
-        if (code < -1) {
+        if (code < -1 && output.output_len == 0) {
             // read timeout happened. it's ok.
             continue;
         }
-- 
2.43.0


From a733b11b571cac270228dc10fb0295519d048676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:24 +0000
Subject: [PATCH 18/45] fix: do not share a receiver that has already ended

---
 src/sdr_worker.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/sdr_worker.c b/src/sdr_worker.c
index 3da009c..9875619 100644
--- a/src/sdr_worker.c
+++ b/src/sdr_worker.c
@@ -15,6 +15,7 @@ struct sdr_worker_t {
     linked_list *dsp_configs;
     pthread_t sdr_thread;
     bool sdr_thread_started;
+    bool ended;
     pthread_mutex_t mutex;
 };
 
@@ -50,6 +51,7 @@ static void *sdr_worker_callback(void *arg) {
     //this would close all client sockets
     //and initiate cascade shutdown of sdr and dsp workers
     pthread_mutex_lock(&worker->mutex);
+    worker->ended = true;
     linked_list_foreach(NULL, &dsp_worker_shutdown, worker->dsp_configs);
     pthread_mutex_unlock(&worker->mutex);
     return (void *) 0;
@@ -79,6 +81,13 @@ bool sdr_worker_find_closest(void *id, void *data) {
     }
     struct sdr_rx *rx = (struct sdr_rx *) id;
     sdr_worker *worker = (sdr_worker *) data;
+    pthread_mutex_lock(&worker->mutex);
+    bool ended = worker->ended;
+    pthread_mutex_unlock(&worker->mutex);
+    if (ended) {
+        // no more data will come from this device
+        return false;
+    }
     if (worker->rx->rx_center_freq == rx->rx_center_freq &&
         worker->rx->rx_sampling_freq == rx->rx_sampling_freq &&
         worker->rx->rx_offset == rx->rx_offset) {
@@ -152,6 +161,10 @@ int sdr_worker_add_dsp_worker(dsp_worker *worker, sdr_worker *sdr) {
             linked_list_remove_by_id(&worker, &sdr_worker_is_same, &sdr->dsp_configs);
         }
     }
+    if (code == 0 && sdr->ended) {
+        // the device ended meanwhile
+        dsp_worker_shutdown(NULL, worker);
+    }
     pthread_mutex_unlock(&sdr->mutex);
     return code;
 }
\ No newline at end of file
-- 
2.43.0


From a113e04c93f32c222d70da6a1e261722f06f2d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:24 +0000
Subject: [PATCH 19/45] fix: do not block the sample source when the client
 stops on failure

---
 src/dsp_worker.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dsp_worker.c b/src/dsp_worker.c
index 5f39988..ff8779a 100644
--- a/src/dsp_worker.c
+++ b/src/dsp_worker.c
@@ -101,6 +101,8 @@ static void *dsp_worker_callback(void *arg) {
         }
 
     }
+    // nobody reads from the queue anymore. don't block sdr_worker
+    interrupt_waiting_the_data(worker->queue);
     printf("[%d] dsp_worker stopped\n", worker->id);
     return (void *) 0;
 }
-- 
2.43.0


From 68090a6ec3f7cfaf0807f3984675b473ca81d8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:24 +0000
Subject: [PATCH 20/45] fix: close the sdr server socket exactly once

---
 src/sdr/sdr_server_client.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index bff14d9..3b99e57 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <errno.h>
 #include <netinet/in.h>
+#include <sys/socket.h>
 #include <sys/time.h>
 #include <arpa/inet.h>
 #include <stdio.h>
@@ -25,6 +26,7 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
         return -ENOMEM;
     }
     *result = (struct sdr_server_client_t) {0};
+    result->client_socket = -1;
 
     result->id = id;
     result->output_len = max_output_buffer_length;
@@ -46,7 +48,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     tv.tv_sec = read_timeout_seconds;
     tv.tv_usec = 0;
     if (setsockopt(client_socket, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv)) {
-        close(client_socket);
         perror("setsockopt - SO_RCVTIMEO");
         sdr_server_client_destroy(result);
         return -1;
@@ -58,7 +59,6 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
     address.sin_port = htons(port);
     int code = connect(client_socket, (struct sockaddr *) &address, sizeof(address));
     if (code != 0) {
-        close(client_socket);
         fprintf(stderr, "<3>[%d] connection with sdr server failed: %d\n", result->id, code);
         sdr_server_client_destroy(result);
         return -1;
@@ -208,7 +208,8 @@ void sdr_server_client_stop(void *plugin) {
         }
     }
     fprintf(stdout, "[%d] disconnected from sdr server..\n", client->id);
-    close(client->client_socket);
+    // wake up the thread reading from the socket
+    shutdown(client->client_socket, SHUT_RDWR);
 }
 
 void sdr_server_client_destroy(void *plugin) {
@@ -216,6 +217,10 @@ void sdr_server_client_destroy(void *plugin) {
         return;
     }
     sdr_server_client *client = (sdr_server_client *) plugin;
+    // close only when no other thread can use the socket
+    if (client->client_socket != -1) {
+        close(client->client_socket);
+    }
     if (client->output != NULL) {
         free(client->output);
     }
-- 
2.43.0


From 6d1f480ea340e796874cf7eaf7b8d2727a2e2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:24 +0000
Subject: [PATCH 21/45] fix: keep the incomplete sample when reading from sdr
 server times out

---
 src/sdr/sdr_server_client.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 3b99e57..8f54b22 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -18,6 +18,9 @@ struct sdr_server_client_t {
 
     float complex *output;
     size_t output_len;
+    // bytes of the incomplete sample left from the previous read
+    uint8_t partial[sizeof(float complex)];
+    size_t partial_len;
 };
 
 int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_server_client **client) {
@@ -150,13 +153,16 @@ int sdr_server_client_read_response(struct sdr_server_response **response, sdr_s
 int sdr_server_client_read_stream(float complex **output, size_t *output_len, void *plugin) {
     sdr_server_client *client = (sdr_server_client *) plugin;
     size_t actually_read = 0;
-    int code = tcp_utils_read_data_partially(client->output, sizeof(float complex) * client->output_len, &actually_read, client->client_socket);
-    if (actually_read != 0) {
+    memcpy(client->output, client->partial, client->partial_len);
+    int code = tcp_utils_read_data_partially((uint8_t *) client->output + client->partial_len, sizeof(float complex) * client->output_len - client->partial_len, &actually_read, client->client_socket);
+    actually_read += client->partial_len;
+    *output_len = actually_read / sizeof(float complex);
+    client->partial_len = actually_read % sizeof(float complex);
+    memcpy(client->partial, (uint8_t *) client->output + (actually_read - client->partial_len), client->partial_len);
+    if (*output_len != 0) {
         *output = client->output;
-        *output_len = actually_read / sizeof(float complex);
     } else {
         *output = NULL;
-        *output_len = 0;
     }
     return code;
 }
-- 
2.43.0


From a230e32168fde0ddc76c58e35a43929e2385c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:58:24 +0000
Subject: [PATCH 22/45] fix: refuse frequencies that can not be sent to sdr
 server

---
 src/sdr/sdr_server_client.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sdr/sdr_server_client.c b/src/sdr/sdr_server_client.c
index 8f54b22..230ac1a 100644
--- a/src/sdr/sdr_server_client.c
+++ b/src/sdr/sdr_server_client.c
@@ -73,6 +73,11 @@ int sdr_server_client_create_inner(uint32_t id, char *addr, int port, int read_t
 }
 
 int sdr_server_client_create(uint32_t id, struct sdr_rx *rx, char *addr, int port, int read_timeout_seconds, uint32_t max_output_buffer_length, sdr_device **output) {
+    if (rx->rx_center_freq > UINT32_MAX || rx->rx_sampling_freq > UINT32_MAX ||
+        rx->rx_offset < -(int64_t) rx->rx_center_freq || rx->rx_offset > UINT32_MAX - (int64_t) rx->rx_center_freq) {
+        fprintf(stderr, "<3>[%d] frequency or sampling rate is not supported by sdr server\n", id);
+        return -1;
+    }
     sdr_server_client *client = NULL;
     int code = sdr_server_client_create_inner(id, addr, port, read_timeout_seconds, max_output_buffer_length, &client);
     if (code != 0) {
-- 
2.43.0


From 717a96df04da07c488699c9bb084fecd4ce82cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 23/45] fix: filter blocks that are shorter than the decimation
 step

---
 src/dsp/fir_filter.c | 20 ++++++++++++++++++--
 src/dsp/fir_filter.h |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index d7469f6..93771f6 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -97,13 +97,18 @@ void fir_filter_process_float(const float *input, size_t input_len, float *worki
     size_t i = 0;
     size_t produced = 0;
     float *output_pointer = (float *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
+    size_t max_index = working_len < filter->taps_len ? 0 : working_len - (filter->taps_len - 1);
     for (; i < max_index; i += filter->decimation, produced++) {
         volk_32f_x2_dot_prod_32f_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                    filter->taps_len);
         *output_pointer = *(float *) filter ->volk_output;
         output_pointer++;
     }
+    if (i > working_len) {
+        // decimation is longer than the filter
+        filter->skip = i - working_len;
+        i = working_len;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
@@ -127,13 +132,18 @@ void fir_filter_process_complex(const float complex *input, size_t input_len, fl
     size_t i = 0;
     size_t produced = 0;
     float complex *output_pointer = (float complex *) filter->output;
-    size_t max_index = working_len - (filter->taps_len - 1);
+    size_t max_index = working_len < filter->taps_len ? 0 : working_len - (filter->taps_len - 1);
     for (; i < max_index; i += filter->decimation, produced++) {
         volk_32fc_32f_dot_prod_32fc_u(filter->volk_output, working_buffer + i, filter->taps[0],
                                       filter->taps_len);
         *output_pointer = *(float complex *) filter->volk_output;
         output_pointer++;
     }
+    if (i > working_len) {
+        // decimation is longer than the filter
+        filter->skip = i - working_len;
+        i = working_len;
+    }
     filter->history_offset = working_len - i;
     if (i > 0) {
         memmove(working_buffer, working_buffer + i, filter->num_bytes * filter->history_offset);
@@ -150,6 +160,12 @@ void fir_filter_process(const void *input, size_t input_len, void **output, size
         *output_len = 0;
         return;
     }
+    if (filter->skip > 0) {
+        size_t to_skip = filter->skip < input_len ? filter->skip : input_len;
+        filter->skip -= to_skip;
+        input = (const char *) input + to_skip * filter->num_bytes;
+        input_len -= to_skip;
+    }
     if (filter->num_bytes == sizeof(float complex)) {
         fir_filter_process_complex((const float complex *) input, input_len, (float complex *) filter->working_buffer, output,
                                    output_len, filter);
diff --git a/src/dsp/fir_filter.h b/src/dsp/fir_filter.h
index 1ad8583..4670cc4 100644
--- a/src/dsp/fir_filter.h
+++ b/src/dsp/fir_filter.h
@@ -17,6 +17,8 @@ struct fir_filter_t {
 
     void *working_buffer;
     size_t history_offset;
+    // number of samples to skip at the beginning of the next block
+    size_t skip;
     size_t working_len_total;
     void *volk_output;
     size_t max_input_buffer_length;
-- 
2.43.0


From 63b1888612277f4540a9618f20b229d8323baac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 24/45] fix: report missing memory for filter taps

---
 src/dsp/fir_filter.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index 93771f6..0ec07d2 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -10,11 +10,18 @@ int create_aligned_taps(const float *original_taps, size_t taps_len, fir_filter
     // Make a set of taps at all possible alignments
     float **result = malloc(number_of_aligned * sizeof(float *));
     if (result == NULL) {
-        return -1;
+        return -ENOMEM;
     }
     for (int i = 0; i < number_of_aligned; i++) {
         size_t aligned_taps_len = taps_len + number_of_aligned - 1;
         result[i] = (float *) volk_malloc(aligned_taps_len * sizeof(float), filter->alignment);
+        if (result[i] == NULL) {
+            for (int j = 0; j < i; j++) {
+                volk_free(result[j]);
+            }
+            free(result);
+            return -ENOMEM;
+        }
         // some taps will be longer than original, but
         // since they contain zeros, multiplication on an input will produce 0
         // there is a tradeoff: multiply unaligned input or
-- 
2.43.0


From 2d850e607d346ba7577d1c01f3f0aa92d5973eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 25/45] fix: do not take a stale errno for invalid
 VOLK_ALIGNMENT

---
 src/dsp/fir_filter.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index 0ec07d2..8c82c74 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -50,6 +50,7 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     char *alignment_override = getenv("VOLK_ALIGNMENT");
     if (alignment_override != NULL) {
+        errno = 0;
         result->alignment = strtol(alignment_override, (char **) NULL, 10);
         if (errno == ERANGE || result->alignment == 0) {
             fprintf(stderr, "<3>invalid VOLK_ALIGNMENT specified: %s\n", alignment_override);
-- 
2.43.0


From baa1c091e02aa5d79ff961260aece386dc686e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 26/45] fix: release filter taps exactly once when the filter
 can not be created

---
 src/dsp/fir_filter.c            | 3 ++-
 src/dsp/lpf.c                   | 1 +
 src/dsp/mmse_fir_interpolator.c | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsp/fir_filter.c b/src/dsp/fir_filter.c
index 8c82c74..445d930 100644
--- a/src/dsp/fir_filter.c
+++ b/src/dsp/fir_filter.c
@@ -63,7 +63,6 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
 
     result->decimation = decimation;
     result->num_bytes = num_bytes;
-    result->original_taps = taps;
     result->taps_len = taps_len;
     result->history_offset = taps_len - 1;
     int code = create_aligned_taps(taps, taps_len, result);
@@ -94,6 +93,8 @@ int fir_filter_create(uint8_t decimation, float *taps, size_t taps_len,
         return -ENOMEM;
     }
 
+    // take ownership of the taps only when everything else succeeded
+    result->original_taps = taps;
     *filter = result;
     return 0;
 }
diff --git a/src/dsp/lpf.c b/src/dsp/lpf.c
index 776f0d0..272051c 100644
--- a/src/dsp/lpf.c
+++ b/src/dsp/lpf.c
@@ -27,6 +27,7 @@ int lpf_create(uint8_t decimation, uint64_t sampling_freq, uint64_t cutoff_freq,
     }
     code = fir_filter_create(decimation, taps, taps_len, max_input_buffer_length, num_bytes, &result->filter);
     if (code != 0) {
+        free(taps);
         lpf_destroy(result);
         return code;
     }
diff --git a/src/dsp/mmse_fir_interpolator.c b/src/dsp/mmse_fir_interpolator.c
index bb18ba6..1f185f2 100644
--- a/src/dsp/mmse_fir_interpolator.c
+++ b/src/dsp/mmse_fir_interpolator.c
@@ -171,6 +171,7 @@ int mmse_fir_interpolator_create(mmse_fir_interpolator **interp) {
         int code = fir_filter_create(1, filter_taps, result->taps_len, result->taps_len, sizeof(float), &curFilter);
         //init all filters anyway
         if (code != 0) {
+            free(filter_taps);
             result_code = code;
             result->filters[i] = NULL;
         } else {
-- 
2.43.0


From 3521d6f4a1c821a66916d747d768aa46277cc4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 27/45] fix: release convolution result on missing memory

---
 src/dsp/gfsk_mod.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 23320fa..59e947b 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -22,6 +22,7 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
     }
     float *temp = malloc(sizeof(float) * result_len);
     if (temp == NULL) {
+        free(result);
         return -ENOMEM;
     }
     memset(temp, 0, sizeof(float) * result_len);
-- 
2.43.0


From 44fd9433a6a6bf4a3f64a710c69ec54e1706c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 28/45] fix: refuse symbol lengths that do not fit the
 modulator

---
 src/dsp/gfsk_mod.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 59e947b..60a7267 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -42,6 +42,10 @@ int gfsk_mod_convolve(float *x, size_t x_len, float *y, size_t y_len, float **ou
 }
 
 int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint32_t max_input_buffer_length, gfsk_mod **mod) {
+    if (!(samples_per_symbol >= 1.0F && samples_per_symbol < UINT8_MAX + 1)) {
+        fprintf(stderr, "<3>unsupported samples per symbol: %f\n", samples_per_symbol);
+        return -1;
+    }
     struct gfsk_mod_t *result = malloc(sizeof(struct gfsk_mod_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From ba1511a4b9dcb8a8a70e6ecfcdbe02f008457683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 29/45] fix: refuse zero interpolation

---
 src/dsp/interp_fir_filter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/interp_fir_filter.c b/src/dsp/interp_fir_filter.c
index 183803a..ee9f755 100644
--- a/src/dsp/interp_fir_filter.c
+++ b/src/dsp/interp_fir_filter.c
@@ -73,6 +73,10 @@ float **interp_fir_filter_create_interleaved_taps(const float *taps, size_t taps
 }
 
 int interp_fir_filter_create(float *taps, size_t taps_len, uint8_t interpolation, uint32_t max_input_buffer_length, interp_fir_filter **filter) {
+    if (interpolation == 0) {
+        fprintf(stderr, "<3>interpolation should be positive\n");
+        return -1;
+    }
     struct interp_fir_filter_t *result = malloc(sizeof(struct interp_fir_filter_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From 7b44675f6ab55e477eae20a218467c3eac9802fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 30/45] fix: design a single tap filter without dividing by
 zero

---
 src/dsp/lpf_taps.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/lpf_taps.c b/src/dsp/lpf_taps.c
index 453e9cd..794212c 100644
--- a/src/dsp/lpf_taps.c
+++ b/src/dsp/lpf_taps.c
@@ -45,6 +45,11 @@ int create_hamming_window(int ntaps, float **output) {
         return -ENOMEM;
     }
     int m = ntaps - 1;
+    if (m == 0) {
+        result[0] = 1.0F;
+        *output = result;
+        return 0;
+    }
     for (int n = 0; n < ntaps; n++) {
         result[n] = (float) (0.54 - 0.46 * cos((2 * M_PI * n) / m));
     }
-- 
2.43.0


From 70103e5594d326e474528f599d9685318d904388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 31/45] fix: refuse filters with too many taps

---
 src/dsp/lpf_taps.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dsp/lpf_taps.c b/src/dsp/lpf_taps.c
index 794212c..6540030 100644
--- a/src/dsp/lpf_taps.c
+++ b/src/dsp/lpf_taps.c
@@ -10,6 +10,7 @@
 
 #include "lpf_taps.h"
 #include <inttypes.h>
+#include <limits.h>
 
 int sanity_check_1f(uint64_t sampling_freq, uint64_t cutoff_freq, uint32_t transition_width) {
     if (sampling_freq <= 0) {
@@ -30,6 +31,14 @@ int sanity_check_1f(uint64_t sampling_freq, uint64_t cutoff_freq, uint32_t trans
     return 0;
 }
 
+static int sanity_check_ntaps(uint64_t sampling_freq, uint32_t transition_width) {
+    if (53.0 * (double) sampling_freq / (22.0 * (double) transition_width) >= INT_MAX - 1) {
+        fprintf(stderr, "<3>transition width is too small: %u\n", transition_width);
+        return -1;
+    }
+    return 0;
+}
+
 int computeNtaps(uint64_t sampling_freq, uint64_t transition_width) {
     double a = 53;
     int ntaps = (int) (a * (double) sampling_freq / (22.0 * (double) transition_width));
@@ -63,6 +72,11 @@ int create_low_pass_filter(float gain, uint64_t sampling_freq, uint64_t cutoff_f
         return code;
     }
 
+    code = sanity_check_ntaps(sampling_freq, transition_width);
+    if (code != 0) {
+        return code;
+    }
+
     int ntaps = computeNtaps(sampling_freq, transition_width);
     float *taps = malloc(sizeof(float) * ntaps);
     if (taps == NULL) {
-- 
2.43.0


From 0c1198c8592a1d9aea3af9ffb88610b9a1abf3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 32/45] fix: refuse too short dc blocker

---
 src/dsp/dc_blocker.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dsp/dc_blocker.c b/src/dsp/dc_blocker.c
index c5b7b7c..825b2a8 100644
--- a/src/dsp/dc_blocker.c
+++ b/src/dsp/dc_blocker.c
@@ -1,4 +1,5 @@
 #include <stdlib.h>
+#include <stdio.h>
 #include <errno.h>
 #include <string.h>
 
@@ -64,6 +65,10 @@ float moving_average_process(float input, struct moving_average *mavg) {
 }
 
 int dc_blocker_create(int length, dc_blocker **blocker) {
+    if (length < 2) {
+        fprintf(stderr, "<3>dc blocker length is too short: %d\n", length);
+        return -1;
+    }
     struct dc_blocker_t *result = malloc(sizeof(struct dc_blocker_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From 5b3a0a8bd8cbe103bb7419ea0f93a10b92a2d9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 33/45] fix: keep the phase within one turn for large frequency
 steps

---
 src/dsp/frequency_modulator.c | 7 ++-----
 src/dsp/sig_source.c          | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/dsp/frequency_modulator.c b/src/dsp/frequency_modulator.c
index d5884cf..e401017 100644
--- a/src/dsp/frequency_modulator.c
+++ b/src/dsp/frequency_modulator.c
@@ -47,11 +47,8 @@ void frequency_modulator_process(float *input, size_t input_len, float complex *
     }
     for (size_t i = 0; i < input_len; i++) {
         mod->phase = mod->phase + mod->sensitivity * input[i];
-        if (mod->phase < -M_2PI) {
-            mod->phase += M_2PI;
-        }
-        if (mod->phase > M_2PI) {
-            mod->phase -= M_2PI;
+        if (mod->phase < -M_2PI || mod->phase > M_2PI) {
+            mod->phase = fmodf(mod->phase, M_2PI);
         }
         mod->output[i] = cos(mod->phase) + I * sin(mod->phase);
     }
diff --git a/src/dsp/sig_source.c b/src/dsp/sig_source.c
index 9816fec..ae30c33 100644
--- a/src/dsp/sig_source.c
+++ b/src/dsp/sig_source.c
@@ -45,11 +45,8 @@ void sig_source_process(int64_t freq, size_t expected_output_len, float complex
     for (size_t i = 0; i < expected_output_len; i++) {
         source->output[i] = cos(source->phase) * source->amplitude + sin(source->phase) * source->amplitude * I;
         source->phase += adjusted_freq;
-        if (source->phase < -M_2PI) {
-            source->phase += M_2PI;
-        }
-        if (source->phase > M_2PI) {
-            source->phase -= M_2PI;
+        if (source->phase < -M_2PI || source->phase > M_2PI) {
+            source->phase = fmodf(source->phase, M_2PI);
         }
     }
 
-- 
2.43.0


From b04360d2ec740caff73f25f8ccd19a22189e9708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 34/45] fix: do not restart doppler prediction when the
 predicted shift is zero

---
 src/dsp/doppler.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dsp/doppler.c b/src/dsp/doppler.c
index 7fddc2f..90bcfe5 100644
--- a/src/dsp/doppler.c
+++ b/src/dsp/doppler.c
@@ -2,6 +2,7 @@
 #include "../sgpsdp/sgp4sdp4.h"
 #include "sig_source.h"
 #include <errno.h>
+#include <stdbool.h>
 
 // km/sec
 double SPEED_OF_LIGHT = 2.99792458E5;
@@ -16,6 +17,7 @@ struct doppler_t {
     double current_freq_difference;
     double next_freq_difference;
     double freq_difference_per_sample;
+    bool predicted;
 
     uint64_t update_interval_samples;
     uint64_t current_samples;
@@ -149,7 +151,8 @@ void doppler_process(float complex *input, size_t input_len, float complex **out
         // This would assume sample rate is taken evenly during the second
         if (result->current_samples >= result->update_interval_samples) {
             result->current_samples = 0;
-            if (result->next_freq_difference == 0) {
+            if (!result->predicted) {
+                result->predicted = true;
                 // start time can be 0
                 // in that case correction is happening in realtime
                 // take current system time
-- 
2.43.0


From 22a64fb25244e0bec7fcb412c501628812718134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:02:18 +0000
Subject: [PATCH 35/45] fix: interpolate doppler shift independently of block
 lengths

---
 src/dsp/doppler.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dsp/doppler.c b/src/dsp/doppler.c
index 90bcfe5..7b85e44 100644
--- a/src/dsp/doppler.c
+++ b/src/dsp/doppler.c
@@ -173,14 +173,14 @@ void doppler_process(float complex *input, size_t input_len, float complex **out
             // linear interpolation between next and current doppler shift
             // this is to avoid sudden jumps of frequency between corrections
             result->freq_difference_per_sample = (result->next_freq_difference - result->current_freq_difference) / result->update_interval_samples;
-        } else {
-            result->current_freq_difference += result->freq_difference_per_sample * (double) batch_len;
         }
+        // shift at the first sample of the batch
+        double freq_difference = result->current_freq_difference + result->freq_difference_per_sample * (double) result->current_samples;
         result->current_samples += batch_len;
 
         float complex *sig_output = NULL;
         size_t sig_output_len = 0;
-        sig_source_multiply((int64_t) result->current_freq_difference, input + processed, batch_len, &sig_output, &sig_output_len, result->source);
+        sig_source_multiply((int64_t) freq_difference, input + processed, batch_len, &sig_output, &sig_output_len, result->source);
 
         memcpy(result->output + processed, sig_output, sizeof(float complex) * sig_output_len);
 
-- 
2.43.0


From 9396ec1e762cca4ff3fb7f27aebb564d5e271086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:03:04 +0000
Subject: [PATCH 36/45] fix: do not recover the same symbol twice when it is
 longer than the rest of the block

---
 src/dsp/clock_recovery_mm.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index 9f90f03..3110be2 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -19,6 +19,8 @@ struct clock_mm_t {
 
     float *working_buffer;
     size_t history_offset;
+    // number of samples to skip at the beginning of the next block
+    size_t skip;
     size_t working_len_total;
 
     float *output;
@@ -86,9 +88,8 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
     // prepend history to the input
     memcpy(clock->working_buffer + clock->history_offset, input, input_len * sizeof(float));
     int taps_len = mmse_fir_interpolator_taps(clock->interp);
-    int ii = 0;                                  // input index
-    int oo = 0;                                  // output index
-    int previous = 0;
+    size_t ii = clock->skip;                     // input index
+    size_t oo = 0;                               // output index
     size_t working_len = clock->history_offset + input_len;
     // not enough input
     if (working_len < taps_len) {
@@ -106,7 +107,6 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
                                                           clock->interp);
         if (isnan(clock->output[oo])) {
             clock->output[oo] = 0.0f;
-            previous = ii;
             ii += (int) floorf(clock->omega);
             oo++;
             continue;
@@ -114,7 +114,6 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
 
         mm_val = slice(clock->last_sample) * clock->output[oo] - slice(clock->output[oo]) * clock->last_sample;
         clock->last_sample = clock->output[oo];
-        previous = ii;
 
         clock->omega = clock->omega + clock->gain_omega * mm_val;
         clock->omega = clock->omega_mid + branchless_clip(clock->omega - clock->omega_mid, clock->omega_lim);
@@ -126,9 +125,12 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
 
     size_t last_index;
     if (ii > working_len) {
-        last_index = previous;
+        // the next symbol is in the next block
+        last_index = working_len;
+        clock->skip = ii - working_len;
     } else {
         last_index = ii;
+        clock->skip = 0;
     }
     clock->history_offset = working_len - last_index;
 
-- 
2.43.0


From 523b323ba3f8ad92aa58391166e104a9452a9b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:03:04 +0000
Subject: [PATCH 37/45] fix: keep clock recovery inside its buffers for any
 input

---
 src/dsp/clock_recovery_mm.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/dsp/clock_recovery_mm.c b/src/dsp/clock_recovery_mm.c
index 3110be2..c384420 100644
--- a/src/dsp/clock_recovery_mm.c
+++ b/src/dsp/clock_recovery_mm.c
@@ -6,6 +6,9 @@
 #include <volk/volk.h>
 #include <stdio.h>
 
+// the position of the symbol should be represented exactly
+#define MAX_OMEGA ((float) (1 << 22))
+
 struct clock_mm_t {
     mmse_fir_interpolator *interp;
     float omega;
@@ -30,6 +33,10 @@ struct clock_mm_t {
 int
 clock_mm_create(float omega, float gain_omega, float mu, float gain_mu, float omega_relative_limit, size_t output_len,
                 clock_mm **clock) {
+    if (!(omega >= 1.0F && omega <= MAX_OMEGA) || !(omega_relative_limit >= 0.0F && omega_relative_limit < 1.0F) || !(mu >= 0.0F && mu < 1.0F)) {
+        fprintf(stderr, "<3>unsupported number of samples per symbol: %f\n", omega);
+        return -1;
+    }
     struct clock_mm_t *result = malloc(sizeof(struct clock_mm_t));
     if (result == NULL) {
         return -ENOMEM;
@@ -73,8 +80,8 @@ float slice(float x) {
     return x < 0 ? -1.0F : 1.0F;
 }
 
-static inline float branchless_clip(float x, float clip) {
-    return 0.5F * (fabsf(x + clip) - fabsf(x - clip));
+static inline float clip(float x, float limit) {
+    return fmaxf(-limit, fminf(x, limit));
 }
 
 void clock_mm_process(const float *input, size_t input_len, float **output, size_t *output_len, clock_mm *clock) {
@@ -105,9 +112,9 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
         // produce output sample
         clock->output[oo] = mmse_fir_interpolator_process(clock->working_buffer + ii, clock->mu,
                                                           clock->interp);
-        if (isnan(clock->output[oo])) {
+        if (!isfinite(clock->output[oo])) {
             clock->output[oo] = 0.0f;
-            ii += (int) floorf(clock->omega);
+            ii += (int) fmaxf(1.0F, floorf(clock->omega));
             oo++;
             continue;
         }
@@ -116,8 +123,9 @@ void clock_mm_process(const float *input, size_t input_len, float **output, size
         clock->last_sample = clock->output[oo];
 
         clock->omega = clock->omega + clock->gain_omega * mm_val;
-        clock->omega = clock->omega_mid + branchless_clip(clock->omega - clock->omega_mid, clock->omega_lim);
-        clock->mu = clock->mu + clock->omega + clock->gain_mu * mm_val;
+        clock->omega = clock->omega_mid + clip(clock->omega - clock->omega_mid, clock->omega_lim);
+        // always move forward
+        clock->mu = fmaxf(1.0F, clock->mu + clock->omega + clip(clock->gain_mu * mm_val, clock->omega_mid));
         ii += (int) floorf(clock->mu);
         clock->mu = clock->mu - floorf(clock->mu);
         oo++;
-- 
2.43.0


From ca877c1f295d43802a8ee4b76a6769945ba1487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:57 +0000
Subject: [PATCH 38/45] fix: do not write before the satellite name

---
 src/sgpsdp/sgp_in.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sgpsdp/sgp_in.c b/src/sgpsdp/sgp_in.c
index bc0c0d7..641f7d2 100644
--- a/src/sgpsdp/sgp_in.c
+++ b/src/sgpsdp/sgp_in.c
@@ -291,7 +291,7 @@ int Get_Next_Tle_Set(char line[3][80], tle_t * tle)
                 }
 
                 /* terminate sat_name string */
-                tle->sat_name[idx - 1] = '\0';
+                tle->sat_name[idx > 0 ? idx - 1 : 0] = '\0';
 
                 /* force loop exit */
                 idx = 25;
-- 
2.43.0


From 64978c3dacec638c4d93ae2982c3c8852bc24e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:57 +0000
Subject: [PATCH 39/45] fix: transmit with a buffer of one sample

---
 src/sdr/plutosdr.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index efcf39c..ecb7639 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -67,13 +67,14 @@ int plutosdr_process_tx(float complex *input, size_t input_len, void *plugin) {
         return -1;
     }
 
+    size_t max_batch = iio->output_len > 1 ? iio->output_len / 2 : 1;
     size_t processed = 0;
     size_t left = input_len;
     while (left > 0) {
         char *p_start = (char *) iio->lib->iio_buffer_first(iio->tx_buffer, iio->tx0_i);
         size_t batch;
-        if (left > iio->output_len / 2) {
-            batch = iio->output_len / 2;
+        if (left > max_batch) {
+            batch = max_batch;
         } else {
             batch = left;
         }
-- 
2.43.0


From fd98b9dad94f4ad57d1d1fe5acd85106ef03cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:58 +0000
Subject: [PATCH 40/45] fix: convert only complete samples

---
 src/sdr/plutosdr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index ecb7639..639b088 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -119,7 +119,8 @@ int plutosdr_process_rx(float complex **output, size_t *output_len, void *plugin
 
     char *p_end = iio->lib->iio_buffer_end(iio->rx_buffer);
     char *p_start = (char *) iio->lib->iio_buffer_first(iio->rx_buffer, iio->rx0_i);
-    size_t num_points = (p_end - p_start) / sizeof(int16_t);
+    // only complete samples
+    size_t num_points = (p_end - p_start) / (2 * sizeof(int16_t)) * 2;
     if (num_points / 2 > iio->output_len) {
         fprintf(stderr, "<3>input buffer %zu is more than max: %zu\n", num_points / 2, iio->output_len);
         *output = NULL;
-- 
2.43.0


From 11adfe28dafa219404974db00d00918ed48c587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:58 +0000
Subject: [PATCH 41/45] fix: report missing ad9361-phy instead of crashing

---
 src/sdr/plutosdr.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index 639b088..c38ba6c 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -192,12 +192,21 @@ static char *plutosdr_format_channel_name(const char *type, int id) {
     return plutosdr_tmpstr;
 }
 
+static struct iio_channel *plutosdr_find_phy_device_channel(struct iio_context *ctx, const char *channel_name, bool is_output, plutosdr *iio) {
+    struct iio_device *phy_device = iio->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        fprintf(stderr, "unable to find ad9361-phy\n");
+        return NULL;
+    }
+    return iio->lib->iio_device_find_channel(phy_device, channel_name, is_output);
+}
+
 static struct iio_channel *plutosdr_find_phy_channel(struct iio_context *ctx, enum iio_direction d, const char *channel_name, plutosdr *iio) {
     switch (d) {
         case RX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, false);
+            return plutosdr_find_phy_device_channel(ctx, channel_name, false, iio);
         case TX:
-            return iio->lib->iio_device_find_channel(iio->lib->iio_context_find_device(ctx, "ad9361-phy"), channel_name, true);
+            return plutosdr_find_phy_device_channel(ctx, channel_name, true, iio);
         default:
             return NULL;
     }
@@ -223,7 +232,11 @@ static int plutosdr_write_lli(struct iio_channel *chn, const char *what, long lo
 int plutosdr_enable_fir_filter(struct iio_device *dev, bool enable, plutosdr *pluto) {
     int ret = pluto->lib->iio_device_attr_write_bool(dev, "in_out_voltage_filter_fir_en", enable);
     if (ret < 0) {
-        ret = pluto->lib->iio_channel_attr_write_bool(pluto->lib->iio_device_find_channel(dev, "out", false), "voltage_filter_fir_en", enable);
+        struct iio_channel *channel = pluto->lib->iio_device_find_channel(dev, "out", false);
+        if (channel == NULL) {
+            return ret;
+        }
+        ret = pluto->lib->iio_channel_attr_write_bool(channel, "voltage_filter_fir_en", enable);
     }
     return ret;
 }
@@ -232,9 +245,9 @@ static struct iio_channel *plutosdr_find_lo_channel(struct iio_context *ctx, enu
     switch (d) {
         // LO chan is always output, i.e. true
         case RX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage0", true);
+            return plutosdr_find_phy_device_channel(ctx, "altvoltage0", true, pluto);
         case TX:
-            return pluto->lib->iio_device_find_channel(pluto->lib->iio_context_find_device(ctx, "ad9361-phy"), "altvoltage1", true);
+            return plutosdr_find_phy_device_channel(ctx, "altvoltage1", true, pluto);
         default:
             return NULL;
     }
@@ -344,6 +357,10 @@ int plutosdr_setup_fir_filter(struct iio_context *ctx, struct stream_cfg *rx_con
     }
 
     struct iio_device *phy_device = pluto->lib->iio_context_find_device(ctx, "ad9361-phy");
+    if (phy_device == NULL) {
+        fprintf(stderr, "unable to find ad9361-phy\n");
+        return -1;
+    }
 
     // filter is not needed
     if (rx_fir_filter_taps == NULL && tx_fir_filter_taps == NULL) {
-- 
2.43.0


From cc1d5d9fe116f2c094e0f7b6dcc2eb36f786102f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:58 +0000
Subject: [PATCH 42/45] fix: release plutosdr configuration on missing memory

---
 src/sdr/plutosdr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sdr/plutosdr.c b/src/sdr/plutosdr.c
index c38ba6c..d12eb48 100644
--- a/src/sdr/plutosdr.c
+++ b/src/sdr/plutosdr.c
@@ -470,6 +470,8 @@ int plutosdr_create(uint32_t id, bool rx_only, struct stream_cfg *rx_config, str
     }
     struct plutosdr_t *pluto = malloc(sizeof(struct plutosdr_t));
     if (pluto == NULL) {
+        free(rx_config);
+        free(tx_config);
         return -ENOMEM;
     }
     *pluto = (struct plutosdr_t) {0};
-- 
2.43.0


From e656bfe0b3a3e7945662e2328639237902b0d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:58 +0000
Subject: [PATCH 43/45] fix: refuse modulator buffers that do not fit the
 output length

---
 src/dsp/gfsk_mod.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dsp/gfsk_mod.c b/src/dsp/gfsk_mod.c
index 60a7267..6cf3cae 100644
--- a/src/dsp/gfsk_mod.c
+++ b/src/dsp/gfsk_mod.c
@@ -46,6 +46,10 @@ int gfsk_mod_create(float samples_per_symbol, float sensitivity, float bt, uint3
         fprintf(stderr, "<3>unsupported samples per symbol: %f\n", samples_per_symbol);
         return -1;
     }
+    if ((uint64_t) max_input_buffer_length * 8 * (uint64_t) samples_per_symbol > UINT32_MAX) {
+        fprintf(stderr, "<3>modulator buffer is too long: %u\n", max_input_buffer_length);
+        return -1;
+    }
     struct gfsk_mod_t *result = malloc(sizeof(struct gfsk_mod_t));
     if (result == NULL) {
         return -ENOMEM;
-- 
2.43.0


From f77438084fa26130f5b87db58e0478aee8f3d5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:58 +0000
Subject: [PATCH 44/45] fix: load libiio when plutosdr is used only for
 receiving

---
 src/server_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server_config.c b/src/server_config.c
index ef52b38..234b6a9 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -173,7 +173,7 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "tx sdr: %s\n", tx_sdr_type_str);
     }
     result->tx_sdr_type = tx_sdr_type;
-    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
+    if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR || result->rx_sdr_type == RX_SDR_TYPE_PLUTOSDR) {
         code = iio_lib_create(&result->iio);
         if (code != 0) {
             config_destroy(&libconfig);
-- 
2.43.0


From 0bd5a2513bad91df9ebc6f02e9e10b7911d0dc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:05:58 +0000
Subject: [PATCH 45/45] fix: refuse settings of the wrong type or out of range

---
 src/server_config.c | 139 +++++++++++++++++++++++++++++---------------
 1 file changed, 93 insertions(+), 46 deletions(-)

diff --git a/src/server_config.c b/src/server_config.c
index 234b6a9..f85f860 100644
--- a/src/server_config.c
+++ b/src/server_config.c
@@ -1,4 +1,6 @@
 #include <libconfig.h>
+#include <limits.h>
+#include <stdint.h>
 #include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
@@ -6,6 +8,41 @@
 
 #include "server_config.h"
 
+static int read_int(const config_setting_t *setting, int default_value, int min, int max, int *output) {
+    if (setting == NULL) {
+        *output = default_value;
+        return 0;
+    }
+    if (config_setting_type(setting) != CONFIG_TYPE_INT) {
+        fprintf(stderr, "<3>%s should be integer\n", config_setting_name(setting));
+        return -1;
+    }
+    int result = config_setting_get_int(setting);
+    if (result < min || result > max) {
+        fprintf(stderr, "<3>%s should be between %d and %d: %d\n", config_setting_name(setting), min, max, result);
+        return -1;
+    }
+    *output = result;
+    return 0;
+}
+
+static int read_float(const config_setting_t *setting, double default_value, double *output) {
+    if (setting == NULL) {
+        *output = default_value;
+        return 0;
+    }
+    if (config_setting_type(setting) == CONFIG_TYPE_FLOAT) {
+        *output = config_setting_get_float(setting);
+        return 0;
+    }
+    if (config_setting_type(setting) == CONFIG_TYPE_INT) {
+        *output = config_setting_get_int(setting);
+        return 0;
+    }
+    fprintf(stderr, "<3>%s should be number\n", config_setting_name(setting));
+    return -1;
+}
+
 char *read_and_copy_str(const config_setting_t *setting, const char *default_value) {
     const char *value;
     if (setting == NULL) {
@@ -13,6 +50,10 @@ char *read_and_copy_str(const config_setting_t *setting, const char *default_val
     } else {
         value = config_setting_get_string(setting);
     }
+    if (value == NULL) {
+        fprintf(stderr, "<3>%s should be string\n", config_setting_name(setting));
+        return NULL;
+    }
     size_t length = strlen(value);
     char *result = malloc(sizeof(char) * length + 1);
     if (result == NULL) {
@@ -43,14 +84,14 @@ int server_config_create(struct server_config **config, const char *path) {
     }
 
     const config_setting_t *setting = config_lookup(&libconfig, "buffer_size");
-    uint32_t buffer_size;
-    if (setting == NULL) {
-        buffer_size = 262144;
-    } else {
-        buffer_size = (uint32_t) config_setting_get_int(setting);
+    int buffer_size;
+    if (read_int(setting, 262144, 1, INT_MAX, &buffer_size) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     fprintf(stdout, "buffer size: %d\n", buffer_size);
-    result->buffer_size = buffer_size;
+    result->buffer_size = (uint32_t) buffer_size;
 
     setting = config_lookup(&libconfig, "bind_address");
     char *bind_address = read_and_copy_str(setting, "127.0.0.1");
@@ -61,40 +102,34 @@ int server_config_create(struct server_config **config, const char *path) {
     }
     result->bind_address = bind_address;
     setting = config_lookup(&libconfig, "port");
-    uint16_t port;
-    if (setting == NULL) {
-        port = 8091;
-    } else {
-        port = (uint16_t) config_setting_get_int(setting);
+    int port;
+    if (read_int(setting, 8091, 0, UINT16_MAX, &port) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->port = port;
+    result->port = (uint16_t) port;
     fprintf(stdout, "start listening on %s:%d\n", result->bind_address, result->port);
 
     setting = config_lookup(&libconfig, "read_timeout_seconds");
     int read_timeout_seconds;
-    if (setting == NULL) {
-        read_timeout_seconds = 5;
-    } else {
-        read_timeout_seconds = config_setting_get_int(setting);
-        if (read_timeout_seconds <= 0) {
-            fprintf(stderr, "<3>read timeout should be positive: %d\n", read_timeout_seconds);
-            config_destroy(&libconfig);
-            server_config_destroy(result);
-            return -1;
-        }
+    if (read_int(setting, 5, 1, INT_MAX, &read_timeout_seconds) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     result->read_timeout_seconds = read_timeout_seconds;
     fprintf(stdout, "read timeout %ds\n", result->read_timeout_seconds);
 
     setting = config_lookup(&libconfig, "queue_size");
-    uint16_t queue_size;
-    if (setting == NULL) {
-        queue_size = 64;
-    } else {
-        queue_size = config_setting_get_int(setting);
+    int queue_size;
+    if (read_int(setting, 64, 1, UINT16_MAX, &queue_size) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     fprintf(stdout, "queue_size: %d\n", queue_size);
-    result->queue_size = queue_size;
+    result->queue_size = (uint16_t) queue_size;
 
     const char *default_folder = getenv("TMPDIR");
     if (default_folder == NULL) {
@@ -117,6 +152,12 @@ int server_config_create(struct server_config **config, const char *path) {
         rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
     } else {
         const char *rx_sdr_type_str = config_setting_get_string(setting);
+        if (rx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>rx_sdr_type should be string\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(rx_sdr_type_str, "sdr-server") == 0) {
             rx_sdr_type = RX_SDR_TYPE_SDR_SERVER;
         } else if (strcmp(rx_sdr_type_str, "plutosdr") == 0) {
@@ -143,10 +184,10 @@ int server_config_create(struct server_config **config, const char *path) {
         result->rx_sdr_server_address = sdr_server_address;
         setting = config_lookup(&libconfig, "rx_sdr_server_port");
         int rx_sdr_server_port;
-        if (setting == NULL) {
-            rx_sdr_server_port = 8090;
-        } else {
-            rx_sdr_server_port = config_setting_get_int(setting);
+        if (read_int(setting, 8090, 0, UINT16_MAX, &rx_sdr_server_port) != 0) {
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
         }
         result->rx_sdr_server_port = rx_sdr_server_port;
         fprintf(stdout, "sdr server used: %s:%d\n", result->rx_sdr_server_address, result->rx_sdr_server_port);
@@ -158,6 +199,12 @@ int server_config_create(struct server_config **config, const char *path) {
         tx_sdr_type = TX_SDR_TYPE_NONE;
     } else {
         const char *tx_sdr_type_str = config_setting_get_string(setting);
+        if (tx_sdr_type_str == NULL) {
+            fprintf(stderr, "<3>tx_sdr_type should be string\n");
+            config_destroy(&libconfig);
+            server_config_destroy(result);
+            return -1;
+        }
         if (strcmp(tx_sdr_type_str, "plutosdr") == 0) {
             tx_sdr_type = TX_SDR_TYPE_PLUTOSDR;
         } else if (strcmp(tx_sdr_type_str, "none") == 0) {
@@ -207,10 +254,10 @@ int server_config_create(struct server_config **config, const char *path) {
 
     setting = config_lookup(&libconfig, "tx_plutosdr_gain");
     double tx_plutosdr_gain;
-    if (setting == NULL) {
-        tx_plutosdr_gain = 0.0;
-    } else {
-        tx_plutosdr_gain = config_setting_get_float(setting);
+    if (read_float(setting, 0.0, &tx_plutosdr_gain) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     result->tx_plutosdr_gain = tx_plutosdr_gain;
     // log parameter only if it is relevant
@@ -219,10 +266,10 @@ int server_config_create(struct server_config **config, const char *path) {
     }
     setting = config_lookup(&libconfig, "rx_plutosdr_gain");
     double rx_plutosdr_gain;
-    if (setting == NULL) {
-        rx_plutosdr_gain = 0.0;
-    } else {
-        rx_plutosdr_gain = config_setting_get_float(setting);
+    if (read_float(setting, 0.0, &rx_plutosdr_gain) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
     result->rx_plutosdr_gain = rx_plutosdr_gain;
     // log parameter only if it is relevant
@@ -230,13 +277,13 @@ int server_config_create(struct server_config **config, const char *path) {
         fprintf(stdout, "rx plutosdr gain %f\n", result->rx_plutosdr_gain);
     }
     setting = config_lookup(&libconfig, "tx_plutosdr_timeout_millis");
-    unsigned int tx_plutosdr_timeout_millis;
-    if (setting == NULL) {
-        tx_plutosdr_timeout_millis = 10000;
-    } else {
-        tx_plutosdr_timeout_millis = config_setting_get_int(setting);
+    int tx_plutosdr_timeout_millis;
+    if (read_int(setting, 10000, 0, INT_MAX, &tx_plutosdr_timeout_millis) != 0) {
+        config_destroy(&libconfig);
+        server_config_destroy(result);
+        return -1;
     }
-    result->tx_plutosdr_timeout_millis = tx_plutosdr_timeout_millis;
+    result->tx_plutosdr_timeout_millis = (unsigned int) tx_plutosdr_timeout_millis;
     // log parameter only if it is relevant
     if (result->tx_sdr_type == TX_SDR_TYPE_PLUTOSDR) {
         fprintf(stdout, "tx timeout millis %d\n", result->tx_plutosdr_timeout_millis);
-- 
2.43.0

