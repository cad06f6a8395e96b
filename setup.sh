#!/bin/bash
# Nothing has to be installed: every check builds what it needs.
cargo --version && rustc --version
