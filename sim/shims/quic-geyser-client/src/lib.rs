//! Stand-in: delivers the messages of the script.
pub mod non_blocking {
    pub mod client {
        use quic_geyser_common::{
            compression::CompressionType,
            filters::Filter,
            message::Message,
            types::{
                account::Account, connections_parameters::ConnectionParameters, slot::SlotMeta,
                slot_identifier::SlotIdentifier,
            },
        };
        use solana_sdk::commitment_config::CommitmentConfig;

        pub struct Client;
        pub struct Receiver;

        impl Client {
            pub async fn new(
                _url: String,
                _parameters: ConnectionParameters,
            ) -> anyhow::Result<(Client, Receiver, Vec<tokio::task::JoinHandle<()>>)> {
                Ok((Client, Receiver, vec![]))
            }
            pub async fn subscribe(&self, _filters: Vec<Filter>) -> anyhow::Result<()> {
                if let Some(ctl) = simctl::ctl() {
                    ctl.subscribe();
                }
                Ok(())
            }
        }

        impl Receiver {
            pub async fn recv(&mut self) -> Option<Message> {
                let ctl = simctl::ctl()?;
                loop {
                    match ctl.poll() {
                        simctl::Poll::End => return None,
                        simctl::Poll::Later => {
                            tokio::time::sleep(std::time::Duration::from_micros(100)).await
                        }
                        simctl::Poll::Message(m) => return Some(convert(m)),
                    }
                }
            }
        }

        fn convert(m: simctl::Message) -> Message {
            match m {
                simctl::Message::Account { pubkey, owner, lamports, executable, rent_epoch, data, slot, write_version } => {
                    Message::AccountMsg(Account {
                        slot_identifier: SlotIdentifier { slot },
                        pubkey: pubkey.into(),
                        owner: owner.into(),
                        lamports,
                        executable,
                        rent_epoch,
                        write_version,
                        data_length: data.len() as u64,
                        data,
                        compression_type: CompressionType::None,
                    })
                }
                simctl::Message::Other => Message::Ping,
                simctl::Message::Slot { slot, parent, level } => Message::SlotMsg(SlotMeta {
                    slot,
                    parent,
                    commitment_config: match level {
                        0 => CommitmentConfig::processed(),
                        1 => CommitmentConfig::confirmed(),
                        _ => CommitmentConfig::finalized(),
                    },
                }),
            }
        }
    }
}
