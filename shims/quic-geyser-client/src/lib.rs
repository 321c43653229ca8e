//! Stand-in for quic-geyser-client: the stream comes over the control channel; a message is
//! acknowledged when the program asks for the next one.
pub mod non_blocking {
    pub mod client {
        use base64::Engine;
        use quic_geyser_common::{
            compression::CompressionType,
            filters::Filter,
            message::Message,
            types::{account::*, connections_parameters::ConnectionParameters, slot::SlotMeta},
        };
        use serde_json::Value;
        use solana_sdk::{commitment_config::CommitmentConfig, pubkey::Pubkey};
        use std::str::FromStr;
        use tokio::sync::mpsc::UnboundedReceiver;

        pub struct Client;
        pub struct Receiver {
            inner: UnboundedReceiver<Value>,
            pending: bool,
            /// the stream starts when the program has subscribed to accounts and slots
            subscribed: tokio::sync::oneshot::Receiver<()>,
            live: bool,
        }
        static SUBSCRIBED: std::sync::Mutex<Option<tokio::sync::oneshot::Sender<()>>> = std::sync::Mutex::new(None);

        fn key(v: &Value) -> Pubkey {
            Pubkey::from_str(v.as_str().unwrap_or_default()).expect("key")
        }
        fn decode(v: &Value) -> Message {
            match v["kind"].as_str() {
                Some("account") => Message::AccountMsg(Account {
                    slot_identifier: SlotIdentifier { slot: v["slot"].as_u64().unwrap() },
                    pubkey: key(&v["pubkey"]),
                    owner: key(&v["owner"]),
                    lamports: v["lamports"].as_u64().unwrap(),
                    executable: v["executable"].as_bool().unwrap(),
                    rent_epoch: v["rent_epoch"].as_u64().unwrap(),
                    write_version: v["write_version"].as_u64().unwrap(),
                    compression_type: match v["compression"].as_u64() {
                        Some(1) => CompressionType::Lz4Fast(4),
                        Some(2) => CompressionType::Lz4(4),
                        _ => CompressionType::None,
                    },
                    data_length: 0,
                    data: base64::engine::general_purpose::STANDARD.decode(v["data"].as_str().unwrap()).unwrap(),
                }),
                Some("slot") => Message::SlotMsg(SlotMeta {
                    slot: v["slot"].as_u64().unwrap(),
                    parent: v["parent"].as_u64().unwrap(),
                    commitment_config: match v["commitment"].as_u64() {
                        Some(0) => CommitmentConfig::processed(),
                        Some(1) => CommitmentConfig::confirmed(),
                        _ => CommitmentConfig::finalized(),
                    },
                }),
                _ => Message::Ping,
            }
        }

        impl Client {
            pub async fn new(
                _url: String,
                _p: ConnectionParameters,
            ) -> anyhow::Result<(Client, Receiver, Vec<tokio::task::JoinHandle<()>>)> {
                let (s, r) = tokio::sync::oneshot::channel();
                *SUBSCRIBED.lock().unwrap() = Some(s);
                let inner = simctl::stream();
                Ok((Client, Receiver { inner, pending: false, subscribed: r, live: false }, vec![]))
            }
            pub async fn subscribe(&self, filters: Vec<Filter>) -> anyhow::Result<()> {
                if filters.contains(&Filter::AccountsAll) && filters.contains(&Filter::Slot) {
                    if let Some(s) = SUBSCRIBED.lock().unwrap().take() {
                        let _ = s.send(());
                    }
                }
                Ok(())
            }
        }
        impl Receiver {
            pub async fn recv(&mut self) -> Option<Message> {
                if self.pending {
                    simctl::answer(&serde_json::json!({ "done": true }));
                    self.pending = false;
                }
                if !self.live {
                    let _ = (&mut self.subscribed).await;
                    self.live = true;
                }
                let v = self.inner.recv().await?;
                if v["t"] == "end" {
                    simctl::answer(&serde_json::json!({ "ended": true }));
                    return None;
                }
                self.pending = true;
                Some(decode(&v))
            }
        }
    }
}
