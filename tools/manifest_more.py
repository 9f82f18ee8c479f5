t("C15",CTL+", and "+NAT,"All interleavings of up to four concurrent writers, a closer and position readers/writers up to a preemption bound on an in-memory file system, and all call sequences up to a depth on real files. "+A)
t("C16",CTL+" with "+FLT,"A fault (error, short write, silent short write) at each of the first writes, in all interleavings of up to four writers up to a preemption bound. "+A)
t("C17",NAT+", and "+CTL,"All sequences of calls up to a depth on one and two buffers of every construction, and all interleavings of goroutines with separate buffers up to a preemption bound. "+A)
t("C18",CTL+" and all choices of the underlying sync.Pool, and "+NAT,"All interleavings of two or three goroutines taking and returning objects up to a preemption bound, and all sequences of Get and Put up to a depth. "+A)
t("C19",CTL+" with linearizability checking, and "+NAT,"The real package on an in-memory mapping: all interleavings of up to four calls up to a preemption bound, all sequences of boundary calls up to a depth. "+A)
t("C20",CTL+" with "+FLT,"After every synchronous write the durable content of the in-memory disk (bytes flushed by msync, rounded to pages) is compared: all positions and lengths around page boundaries, and concurrent calls with failing flushes up to a preemption bound; Linux code path only. "+A)
t("C21",CTL+", and "+NAT,"All interleavings of up to five goroutines making UUIDs up to a preemption bound, millions of consecutive UUIDs, all single-bit and two-bit differences, every byte at every position of the text form. "+A)
t("C22",NAT,"All strings over small alphabets up to a length, boundary lengths, every codec and level, every truncation and changed byte of real streams with the standard library as the oracle, all pairs of calls. "+A)
t("C23",NAT,"All int16, all wider values with few bits different from zeros, ones and byte boundaries (thorough: all int32), all short byte strings. "+A)
t("C24",CTL+", and "+NAT,"Up to three goroutines encoding and decoding, interrupted at every callback, up to a preemption bound; boundary values of every format, every truncation and changed byte. "+A)
t("C25",NAT+", and "+CTL,"All lengths with all amounts of spare capacity, all paddings, all truncations and changed bytes of ciphertexts and keys, sequences of calls, goroutines sharing an Aes. "+A)
t("C26",CTL+" with linearizability checking on an in-memory file system, and "+NAT,"All interleavings of up to four operations of storeAdmin and of key stores up to a preemption bound with reloads, all sequences of operations up to a depth with reloads anywhere, on real files too. "+A)
t("C27",FLT+": crash states on an in-memory file system, and "+CTL,"Every file-system state after every byte and operation of all short histories of writes, each followed by a second write with a crash in every state; every pair of failing file operations; crashes during concurrent writes. "+A)
t("C32",NAT,"All strings of up to two bytes, all strings over a small alphabet up to a length, all lengths to 700, files of boundary sizes, against bit-by-bit definitions. "+A)
t("C28",CTL+" against a server played by the scenario, and "+FLT+" on real loopback connections","All interleavings of short server scripts, client calls and callbacks up to a preemption bound; real plain and TLS connections cut at every byte, all orders of frames up to a depth, all lists of certificates up to a length. "+A)
t("C29",NAT+", with the connection cut at every byte","Every combination of listed bodies, headers, cookies, paths, response framings and sizes against real servers on the loopback interface, a cut and a split at every byte of the response, all orders of answers to concurrent calls. "+A)
t("C31",CTL+", and "+NAT+" with real signals","All interleavings of registrations of up to three listeners, arrivals of up to three signals and long or registering callbacks; all sequences of registrations and real signals up to a depth. "+A)
t("C30",NAT,"Every picture up to a few pixels per side with every combination of options, every size up to a bound in every mode, every source and target format, every truncation and many changed bytes of a picture of every format, against a plain pixel model. The icon encoder, a module that is missing offline, is replaced by a stand-in, so of icons only the header is checked. "+A)
