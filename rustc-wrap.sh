#!/bin/bash
# Count how often each region of the library's own code is executed (C08 compares the counts).
case " $* " in
  *" --crate-name panacea "*) exec "$@" -C instrument-coverage ;;
  *) exec "$@" ;;
esac
