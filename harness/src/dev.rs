//! Simulated serial module (device side of the handshake).

use crate::model::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

/// When the device takes over a transmitted segment.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Accept {
    /// whenever the sequence number differs from the acknowledged one
    Changed,
    /// only if the sequence number follows the acknowledged one
    Next,
}

#[derive(Debug, Clone)]
pub struct Dev {
    pub accept: Accept,
    /// what the device shows to the host
    pub input: ComIn,
    /// what the host has written
    pub output: ComOut,
    /// `output` has been written by the host under test
    pub host_wrote: bool,
    /// data taken over from the host under test
    pub taken: Vec<u8>,
    pub taken_segments: usize,
    /// segments still to present, `None`: a phase without data
    pub to_present: VecDeque<Option<Vec<u8>>>,
    /// number of the segment currently presented (identity, not sequence number)
    pub presented: usize,
    /// the last segment stays in the registers when there is no data
    pub leave_data: bool,
}

impl Dev {
    pub fn new(accept: Accept, input: ComIn, output: ComOut) -> Dev {
        Dev {
            accept,
            input,
            output,
            host_wrote: false,
            taken: vec![],
            taken_segments: 0,
            to_present: VecDeque::new(),
            presented: 0,
            leave_data: false,
        }
    }

    /// Transmit direction: take over a new segment. Returns whether it did.
    pub fn step_tx(&mut self) -> bool {
        let t = self.output.tx;
        let take = match self.accept {
            Accept::Changed => t != self.input.ack,
            Accept::Next => t == (self.input.ack + 1) % 4,
        };
        if take {
            self.input.ack = t;
            if self.host_wrote {
                self.taken.extend_from_slice(&self.output.data);
                if !self.output.data.is_empty() {
                    self.taken_segments += 1;
                }
            }
        }
        take
    }

    /// Receive direction: once the current segment is acknowledged, go on.
    pub fn step_rx(&mut self) -> bool {
        if !self.host_wrote || self.output.ack != self.input.rx {
            return false;
        }
        match self.to_present.pop_front() {
            None => {
                self.no_data();
                false
            }
            Some(None) => {
                self.no_data();
                true
            }
            Some(Some(seg)) => {
                self.input.rx = (self.input.rx + 1) % 4;
                self.input.avail = true;
                self.input.data = seg;
                self.presented += 1;
                true
            }
        }
    }

    fn no_data(&mut self) {
        self.input.avail = false;
        if !self.leave_data {
            self.input.data.clear();
        }
    }

    /// Status that does not take part in the handshake.
    pub fn flags(&mut self, bits: u8) {
        self.input.nearly_full = bits & 1 == 1;
        self.input.ready = bits & 2 == 2;
        self.leave_data = bits & 4 == 4;
    }

    pub fn write(&mut self, o: ComOut) {
        self.output = o;
        self.host_wrote = true;
    }
}
