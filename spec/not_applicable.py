NA = {
    'X01': 'the answer depends on address ranges in binary debug data and on the symbolic crate, which is not part of this repository: no static argument over the source bounds it',
    'X02': 'at-most-once per process is a property of task schedules inside moka\'s entry locking, an external crate; no static rule over this source decides it',
    'X05': 'the mapping is computed by the symbolic source map index from runtime data; only the call wiring is visible in this source',
    'X06': 'the stack walk is computed by rust-minidump from runtime memory contents; only the call wiring is visible in this source',
}
