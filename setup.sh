#!/bin/sh
exit 0
