"""
The properties: what is claimed, where it is anchored, how it is decided.
tools/mkmanifest.py writes properties.jsonl and MANIFEST.json from this; run.py takes the evidence texts from here.
"""

SPECS = {}


def spec(
    pid, *, title, statement, over, text, why, files, mechanism, rule, assumptions=(), note, technique, observe=(), **run
):
    """register"""
    assert pid not in SPECS and len(title) <= 80, (pid, len(title))
    SPECS[pid] = {
        "prop": {
            "id": pid,
            "title": title,
            "statement": statement,
            "quantifier": {"over": list(over), "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": list(files),
                "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        },
        "rule": rule,
        "assumptions": list(assumptions),
        "note": note,
        "technique": technique,
        "run": run,
    }


spec(
    "C01",
    title="Epoch sequence order is a reproducible, exact permutation",
    statement=(
        "For every ordering scheme, sequence-length table, epoch number, partitioning, repetition, sharding, filter and "
        "seed setting, the sequence order of an epoch is a deterministic function of the configuration and the epoch "
        "number and visits exactly the configured set of sequences: the sub-epochs of one full epoch, and all shards of "
        "one sub-epoch, are disjoint and together cover every (filtered, unique, repeated) sequence exactly as often as "
        "configured. Partition and shard sizes are balanced up to one sequence. Length-based orderings respect the "
        "documented length relation (sorted is ascending, reverse is the exact reversal, laplace and bin-shuffle only "
        "permute within what the scheme allows)."
    ),
    over=["inputs", "configurations", "histories"],
    text="all seq_ordering strings x corpora sizes and length tables x epochs x partition_epoch/repeat_epoch/shards x filter/unique lists x seeds",
    why="tests fix a handful of orderings with a fixed number of sequences; collisions of partitioning, sharding, filters, empty bins and epoch wrap-around are combinatorial",
    files=["returnn/datasets/basic.py", "returnn/datasets/util/feature_extraction.py"],
    mechanism=[
        ("get_seq_order_for_epoch", "returnn/datasets/basic.py:Dataset.get_seq_order_for_epoch"),
        ("partitioning/sharding", "returnn/datasets/basic.py:Dataset._apply_partition_epoch, _apply_multi_epoch"),
        ("random seed", "returnn/datasets/basic.py:Dataset._get_random_seed_for_epoch"),
    ],
    rule=(
        "one case = one dataset configuration (n sequences, ordering string incl. generated parameters, lengths, "
        "partition, shards, repeat, seed options, filter / unique tags, files for the lists) whose full epochs are all "
        "computed and compared with set/multiset/sortedness invariants. Non-trivial: n >= 3 and at least one of "
        "non-default ordering, partition, shards, repeat, filter, unique."
    ),
    note="generated configurations against set/multiset invariants computed independently; bounded to <= 60 sequences",
    technique="property-based testing: generated dataset configurations, invariant oracle over all sub-epochs/shards",
)

spec(
    "C02",
    title="HDF files read back exactly what was written",
    statement=(
        "Whatever sequences, tags, labels, data types, sparse/dense dims and extra streams are written through the HDF "
        "writer or dumped from another dataset (including extending an existing file), reading the file(s) back as a "
        "dataset yields exactly the same sequences, tags, lengths, dtypes and dims for every stream, in any access "
        "order. The target file is only visible, complete, after the writer was closed."
    ),
    over=["inputs", "histories", "configurations"],
    text="all write histories (batches, extra streams, dtypes, lengths incl. 0, multiple files, extension) x read access patterns",
    why="tests write one or two fixed layouts; combinations of several extra streams, empty sequences, extension and multi-file reading are not reached",
    files=["returnn/datasets/hdf.py"],
    mechanism=[
        ("writer", "returnn/datasets/hdf.py:SimpleHDFWriter"),
        ("reader", "returnn/datasets/hdf.py:HDFDataset, CachedDataset"),
        ("dump", "returnn/datasets/hdf.py:HDFDatasetWriter"),
    ],
    rule=(
        "simple_writer: one case = a history of insert_batch calls (main stream, extra streams of generated dtype/dim, "
        "lengths, tags), possibly split over several writers with extend_existing_file and several files, then read "
        "through HDFDataset. dataset_dump: another dataset dumped with HDFDatasetWriter. Oracle: the arrays which were "
        "generated. Non-trivial: >= 2 sequences and at least one extra stream, zero-length sequence, extension, "
        "second file or sparse stream."
    ),
    assumptions=["HDFDataset without caching (cache_byte_size=0, the default of all modern setups)"],
    note="round trip over generated write histories; the oracle is the generated data itself",
    technique="property-based testing: round-trip over generated write histories",
)

spec(
    "C03",
    title="Wrapping datasets deliver exactly the wrapped data, for any access history",
    statement=(
        "For any tree of meta, combined, concatenating, multi-epoch, variable, post-processing and re-ordering datasets "
        "over base datasets, each epoch yields exactly the sequences (tags and all data streams) which the definition of "
        "the tree selects from the base datasets, in the order it prescribes. This is independent of the access history: "
        "partially consumed epochs, repeated or skipped epochs, explicit sequence lists/orders, the loading window used, "
        "and pickling do not change what an epoch delivers. Epoch progress, where available, is within (0,1] and never "
        "decreases."
    ),
    over=["inputs", "configurations", "histories"],
    text="all dataset trees up to depth 3 x sequences of epoch starts, partial reads, predefined lists, load windows",
    why="tests exercise each wrapper alone over one epoch, read front to back; re-initialisation after partial reads and nesting are not covered",
    files=[
        "returnn/datasets/basic.py",
        "returnn/datasets/meta.py",
        "returnn/datasets/postprocessing.py",
        "returnn/datasets/map.py",
        "returnn/datasets/generating.py",
    ],
    mechanism=[
        ("MetaDataset, CombinedDataset, ConcatDataset, ConcatSeqsDataset, VariableDataset", "returnn/datasets/meta.py"),
        ("MultiEpochDataset", "returnn/datasets/meta.py"),
        ("PostprocessingDataset, LaplaceOrdering", "returnn/datasets/postprocessing.py"),
        ("DatasetSeq cache", "returnn/datasets/cached2.py:CachedDataset2"),
    ],
    rule=(
        "one case = a generated dataset tree (leaves Static/Map/HDF; wrappers Meta, Combined, Concat, ConcatSeqs, "
        "MultiEpoch, Variable, Postprocessing map_seq / map_seq_stream / laplace) and a list of steps (epoch, predefined "
        "seq list/order, access pattern, partial consumption, pickling). The oracle is a model of the tree computing the "
        "expected sequence list per epoch from the leaf data (leaf orders come from a fresh leaf instance). "
        "Non-trivial: at least one wrapper and at least one epoch with >= 2 sequences."
    ),
    note="model-based: generated trees and histories against a reference model",
    technique="model-based property testing: generated dataset trees and access histories against a reference model",
    soft_quick=120,
)

spec(
    "C04",
    title="Frame-limited batching and chunking cover the data exactly (feed-dict path)",
    statement=(
        "With chunking, every sequence is cut into chunks of the configured size at multiples of the configured step, "
        "for all streams consistently, dropping only a trailing rest not longer than the minimum chunk size (streams of "
        "length one are repeated for each chunk). All chunks which pass the length limits appear in order, each in "
        "exactly one batch; a batch never exceeds the configured padded size, number of sequences or padding (unless a "
        "single sequence alone does) and is closed only when the next chunk would not fit. The fed arrays contain "
        "exactly the data of the chunks (with the context window), zero padding, and the true lengths and tags."
    ),
    over=["inputs", "configurations"],
    text="all sequence lengths x chunking (size/step, per stream, min size) x batch_size/max_seqs/max_pad_size/length limits x context windows",
    why="tests check a few fixed length lists; off-by-one conditions appear only for particular combinations of lengths and limits",
    files=["returnn/datasets/basic.py", "returnn/engine/batch.py", "returnn/tf/data_pipeline.py"],
    mechanism=[
        ("chunking", "returnn/datasets/basic.py:Dataset.iterate_seqs"),
        ("batching", "returnn/datasets/basic.py:Dataset._generate_batches; returnn/engine/batch.py:Batch, BatchSetGenerator"),
        ("padded arrays", "returnn/tf/data_pipeline.py:FeedDictDataProvider.get_next_batch"),
    ],
    rule=(
        "one case = lengths of all streams, chunking options in one of the accepted formats, batch limits, context; the "
        "batches and fed arrays are compared with an independent reference computation. Non-trivial: >= 2 sequences and "
        "(chunking, or max_seqs > 1, or the data does not fit into one batch)."
    ),
    note="generated corpora and limits against an independent reference implementation of chunking/batching; <= 12 sequences",
    technique="property-based testing: differential against a reference chunker/batcher",
)

spec(
    "C05",
    title="PyTorch data pipeline delivers each sequence exactly once, correctly padded",
    statement=(
        "For any dataset and any combination of length filter, chunking, batch-size or bucket batching and online "
        "shuffling, the batches of an epoch contain exactly the selected (chunks of) sequences, each once, with correct "
        "data, lengths, tags and dtypes and zero padding; batch limits (padded size per stream, number of sequences, "
        "bucket limits) hold and batches are not closed early. Without shuffling the order is kept; with shuffling only "
        "whole batches move, within the buffer, while sequence index and epoch progress stay monotonic. Splitting a "
        "batch gives non-empty parts which are identical to collating the parts directly."
    ),
    over=["inputs", "configurations", "histories"],
    text="all length tables x filter/chunk/batch/bucket/shuffle options (constants, dicts, callables) x several epochs",
    why="tests use a handful of fixed pipelines; interactions of dynamic limits, empty sequences, buffers and dtypes are not enumerated",
    files=[
        "returnn/torch/data/pipeline.py",
        "returnn/torch/data/returnn_dataset_wrapper.py",
        "returnn/torch/data/extern_data.py",
    ],
    mechanism=[
        ("pipes", "returnn/torch/data/pipeline.py:ChunkingIterDataPipe, BatchingIterDataPipe, BucketOrderingIterDataPipe, LenFilterDataPipe, ShufflingDataPipe"),
        ("padding", "returnn/torch/data/pipeline.py:collate_batch"),
        ("split, extern data", "returnn/torch/data/extern_data.py:raw_dict_split_batch, raw_dict_to_extern_data"),
    ],
    rule=(
        "pipeline: one case = dataset + pipeline options + epochs, run through the real DataLoader (num_workers=0) and "
        "compared with a reference pipeline; split: one case = batch + split spec, compared with collating the parts. "
        "Non-trivial: >= 3 sequences with any pipeline option set (split: >= 2 sequences)."
    ),
    note="differential against a reference pipeline, exact except for random permutations (checked as multisets within the buffer)",
    technique="property-based testing: differential against a reference pipeline",
)

spec(
    "C06",
    title="Distribution over processes, files and shards preserves the data of an epoch",
    statement=(
        "Reading a dataset through worker processes, distributing files over sub-epochs, or sharding it over readers "
        "delivers, per full epoch, exactly the sequences (tags and data) of the original dataset: none lost, none "
        "duplicated, and in the original order where the order is defined by the sequence list. This holds for any "
        "number of workers, buffer sizes, preloading, shards and partitions, and independent of the history: partially "
        "consumed, repeated, skipped or finished epochs, freed resources, and pickling. No sub-epoch or shard is left "
        "without files while there are enough files."
    ),
    over=["inputs", "configurations", "histories", "schedules"],
    text="all datasets x workers/buffers/sharding methods x file trees and sizes x shards/partitions x access histories",
    why="tests run each of these datasets once, front to back, with even splits; uneven shards, repeated epochs and sharding combined with sub-datasets are not covered",
    files=["returnn/datasets/multi_proc.py", "returnn/datasets/distrib_files.py", "returnn/datasets/basic.py", "returnn/datasets/cached2.py"],
    mechanism=[
        ("worker processes", "returnn/datasets/multi_proc.py:MultiProcDataset"),
        ("file distribution", "returnn/datasets/distrib_files.py:DistributeFilesDataset"),
        ("sharding", "returnn/datasets/basic.py:Dataset._apply_partition_epoch_and_sharding"),
    ],
    rule=(
        "multiproc / files: one case = dataset, worker or file layout, and a history of epochs (partial reads, "
        "predefined orders, finish, free, pickle), with real subprocesses, against the in-process dataset; bins: file "
        "size tables; shards: in-process sharding of dataset trees. Non-trivial: >= 3 sequences/files and more than one "
        "worker/bin."
    ),
    assumptions=["operating system process scheduling is sampled, not controlled"],
    note="real worker processes, histories generated, oracle = the wrapped dataset in one process",
    technique="model-based property testing over access histories with real worker processes",
)

# Compiles the native frontend extension once from the current tree (into the scratch cache dir), before the workers start.
NATIVE_PREBUILD = "import returnn.frontend as rf; rf.select_backend_torch()"

spec(
    "C07",
    title="Frontend array ops on padded batches equal the op on each sequence alone",
    statement=(
        "For every frontend array operation (reductions, cumsum, softmax, shift/reverse, sort, gather, scatter, slice, "
        "pad, concat, stack/split, merge/split dims, windowing, masked select, masking, matmul, elementwise combine with "
        "broadcasting, top-k, search-sorted, one-hot, edit distance, moments) and every mixture of static, batch-dynamic "
        "and scalar-dynamic dims, the result for one sequence depends only on that sequence: it equals the plain numpy "
        "operation on the unpadded sequence, has the correct output dims, per-sequence sizes, dtype, sparse dim and "
        "feature dim, and neither the padding content (garbage, NaN, inf), nor the other sequences of the batch, nor the "
        "axis order or memory layout of the raw tensor can change it. Empty sequences are handled."
    ),
    over=["inputs", "configurations"],
    text="all ops x dim kinds (static, scalar, per-batch lengths incl. 0) x axis orders x memory layouts x padding contents x op options",
    why="tests use one batch with fixed axis order and mostly benign (random, finite) padding; masking errors need the combination of op options, dim kind, axis order and special values",
    files=["returnn/frontend/array_.py", "returnn/frontend/reduce.py", "returnn/frontend/math_.py", "returnn/frontend/matmul.py",
           "returnn/frontend/dims.py", "returnn/torch/frontend/_backend.py", "returnn/frontend/_native/tensor_ops.cpp"],
    mechanism=[
        ("masking of dynamic dims", "returnn/torch/frontend/_backend.py:TorchBackend.reduce, matmul, gather, scatter, pad, ..."),
        ("broadcasting", "returnn/frontend/_native/tensor_ops.cpp, returnn/tensor/_tensor_extra.py:copy_compatible_to_dims"),
        ("dynamic sizes", "returnn/tensor/_dim_extra.py"),
    ],
    rule=(
        "one sub per op family; one case = batch size, lengths and kinds of the dims, random axis order and strides, garbage "
        "kind, and op options; each sequence of the result is compared with numpy on the unpadded sequence. Non-trivial: "
        ">= 2 sequences with different lengths in a batch-dynamic dim."
    ),
    assumptions=["PyTorch eager CPU backend", "options which the code documents as not implemented are not generated"],
    note="per-sequence numpy reference, exact for integers, 2e-5 tolerance for floats",
    technique="property-based testing: differential against numpy per sequence",
    prebuild=NATIVE_PREBUILD,
)

spec(
    "C08",
    title="Model building blocks: a sequence's result is independent of its batch",
    statement=(
        "For every building block (linear, embedding, layer/RMS/group/batch norm, convolution, pooling, LSTM, zoneout LSTM, "
        "self/cross attention with plain, relative and rotary positions, Conformer, E-Branchformer, Transformer "
        "encoder/decoder, conv subsampling, STFT) and every option, the output for a sequence equals the reference formula "
        "computed on the unpadded sequence, and equals the output for this sequence in a batch of its own: it depends neither "
        "on the other sequences, nor on the amount or content of padding, nor on the axis order, nor on previous batches "
        "that used the same dims, modules or cached positional encodings. The same for the gradients: parameter gradients "
        "of a batch are the sum over its sequences, and no gradient flows into padding. Batch statistics (batch norm in "
        "training, moments, running mean) are taken over exactly the real frames."
    ),
    over=["inputs", "configurations", "histories"],
    text="all modules x options x batches of ragged sequences x dim kinds x axis orders x padding contents x history of earlier batches with the same dims",
    why="tests run one batch of fixed shape with benign padding; leaks of padding, stale cached sizes and option interplay (dilation, stride, even kernel) need particular lengths and combinations",
    files=["returnn/frontend/conv.py", "returnn/frontend/attention.py", "returnn/frontend/rec.py", "returnn/frontend/normalization.py",
           "returnn/frontend/linear.py", "returnn/frontend/signal.py", "returnn/frontend/encoder/*.py", "returnn/frontend/decoder/transformer.py",
           "returnn/frontend/_cache.py", "returnn/tensor/_dim_extra.py", "returnn/torch/frontend/_backend.py"],
    mechanism=[
        ("masking before conv/pool/att softmax", "returnn/frontend/conv.py:conv, pool; returnn/frontend/attention.py:dot_attention"),
        ("output sizes", "returnn/frontend/conv.py:make_conv_out_spatial_dims"),
        ("sequence lengths in LSTM", "returnn/torch/frontend/_backend.py:TorchBackend.lstm"),
        ("dim math caches and positional encoding caches", "returnn/tensor/_dim_extra.py, returnn/frontend/_cache.py"),
    ],
    rule=(
        "one sub per module family; one case = batch, lengths, dim kinds, garbage, module options, random parameters; the "
        "batch result is compared with the numpy formula (where there is one) and with the result of every sequence alone "
        "(optionally re-using the dims after a reset, as the engine does), and the gradients likewise. Non-trivial: >= 2 "
        "sequences with different lengths."
    ),
    assumptions=["PyTorch eager CPU backend, float64, dropout off", "behavior version: latest",
                 "no attention and no mean over an empty sequence (not defined; the formula gives NaN)",
                 "average pooling: windows which are partly outside of the sequence are not specified"],
    note="numpy formulas, batch vs single sequence, gradient sums",
    technique="property-based testing: numpy reference formulas and metamorphic batch-vs-alone relations",
    prebuild=NATIVE_PREBUILD,
)

spec(
    "C09",
    title="Stepwise decoding, loops and caches equal the whole-sequence computation",
    statement=(
        "For every model with state (causal self attention with plain, rotary and relative positions, LSTM, zoneout LSTM, "
        "Transformer decoder with and without encoder) and every history of operations on the state - a ragged prefix as a "
        "whole, single steps, beam re-selection (gather_nested), conditional updates (mask_nested), steps of a packed subset "
        "of hypotheses (masked_select_nested / masked_scatter_nested) - the output for a hypothesis is exactly what the "
        "whole-sequence computation on its own label history gives. while_loop and scan equal the plain Python loop for "
        "every sequence (outputs, lengths, final states, changing dims). Caches are transparent: positional encodings and "
        "derived dims give the value for the current sizes, whatever dims of equal size were used, reset or deleted before."
    ),
    over=["inputs", "histories", "configurations"],
    text="all operation histories up to 6 operations (+prefix, +final step) x models x options x batch and beam sizes; all call histories on the caches; all dim expressions over changing base dims",
    why="tests check single steps of single models from the initial state; state bookkeeping errors need histories of different lengths per hypothesis, re-ordered beams and re-used dims",
    files=["returnn/frontend/attention.py", "returnn/frontend/decoder/transformer.py", "returnn/frontend/rec.py", "returnn/frontend/nested.py",
           "returnn/frontend/loop.py", "returnn/frontend/tensor_array.py", "returnn/frontend/_cache.py", "returnn/frontend/array_.py", "returnn/tensor/_dim_extra.py"],
    mechanism=[
        ("key/value accumulation", "returnn/frontend/attention.py:_causal_self_att_step, returnn/frontend/array_.py:cum_concat_step"),
        ("positions", "returnn/frontend/decoder/transformer.py:TransformerDecoder.__call__ state.pos; attention.py:_make_indices"),
        ("nested state ops", "returnn/frontend/nested.py"),
        ("loops", "returnn/frontend/loop.py:scan, while_loop"),
        ("caches", "returnn/frontend/_cache.py:Cache, returnn/tensor/_dim_extra.py:cache_dim_math"),
    ],
    rule=(
        "history: model, options and a list of operations; the model of the history is, per hypothesis, the list of labels; "
        "each output is compared with the same module run on that list as one unbatched sequence. loops: compared with a "
        "Python loop. pos_enc_cache / dim_algebra: call histories compared with closed formulas. Non-trivial: >= 2 "
        "operations with batch > 1, ragged batches, >= 4 cache calls, or a reset between uses."
    ),
    assumptions=["PyTorch eager CPU backend, float64, dropout off", "product dims have only an overall size"],
    note="stateful model-based histories against the whole-sequence computation",
    technique="property-based testing: stateful model-based generation, differential stepwise vs whole sequence",
    prebuild=NATIVE_PREBUILD,
)

spec(
    "C10",
    title="Interrupted and resumed training ends exactly where uninterrupted does",
    statement=(
        "For every PyTorch training setup (model, optimizer, learning rate schedule, gradient accumulation, dropout, seq "
        "order, epoch partition, save interval, cleanup policy, initial checkpoints) and every history of interruptions - the "
        "process killed, or failing with an I/O error, at any file operation, half way through any write, or in any training "
        "or evaluation step, also repeatedly - starting the same training again continues and ends with exactly the same "
        "parameters, optimizer state, step, learning rates and scores as training without interruption. At any such moment, "
        "every checkpoint and learning rate file with its final name is complete and readable. Running a finished training "
        "again changes nothing. Parameters are loaded (load, load_epoch, preload_from_files with its options) from exactly "
        "the documented source, and a parameter which nothing provides is an error."
    ),
    over=["crash_points", "fault_sequences", "configurations"],
    text="all setups of the generator x 1-3 crashes at any visible operation (write, rename, unlink, torch.save, step) x kill / ENOSPC / interrupt; all load configurations over 6 params, up to 3 preload entries",
    why="tests train once without interruption; what is lost or redone depends on the operation at which the process dies, and on which options carry state over epochs",
    files=["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/engine/base.py", "returnn/learning_rate_control.py", "returnn/frontend/rand.py"],
    mechanism=[
        ("temp file and rename", "returnn/torch/engine.py:_save_model, returnn/torch/updater.py:save_optimizer, returnn/learning_rate_control.py:save"),
        ("choice of the start epoch", "returnn/engine/base.py:get_existing_models, get_epoch_model, get_train_start_epoch"),
        ("random seeds per epoch", "returnn/torch/engine.py:init_train_epoch"),
        ("missing evaluations", "returnn/torch/engine.py:_check_missing_eval"),
        ("loading", "returnn/torch/engine.py:_load_model"),
    ],
    rule=(
        "resume: the training engine runs in forked processes in a scratch directory; the reference run counts its visible "
        "operations, then the training is run again with a fault injected at generated operations, restarted, and compared "
        "bit by bit. load: generated checkpoints and options against a model of the documented precedence. Non-trivial: "
        ">= 2 epochs; >= 1 preload entry."
    ),
    assumptions=["single process, CPU, data loader in the main process", "a completed write/rename is durable (no power failure)",
                 "no state outside the model, optimizer and RETURNN/Torch random generators"],
    note="crash injection at every visible operation; bitwise equality with the uninterrupted run",
    technique="property-based testing with fault injection: generated setups and crash points, differential against the uninterrupted run",
    prebuild=NATIVE_PREBUILD,
)

spec(
    "C11",
    title="Training computes what it says: updates, scores, learning rates, checkpoints",
    statement=(
        "For every training setup, the parameters after every epoch are those of the textbook loop: gradients of the scaled "
        "sum or mean of the losses over exactly the real frames of the batch, accumulated over the configured number of "
        "batches, clipped, applied by the configured optimizer with the scheduled (dynamic) learning rate, learning rate "
        "multiplier and weight decay only where the documented rules want it. The reported train and dev scores are the exact "
        "averages over all real frames of the epoch, whatever the batching. The learning rate schedules follow their "
        "documented rule for every score history, and are the same whether or not the training was restarted from the learning "
        "rate file in between. Optimizer state is restored to the parameter with the same name, for every parameter order. "
        "Checkpoint cleanup deletes exactly those which are neither among the last, nor the best by any score, nor to be kept."
    ),
    over=["inputs", "configurations", "histories"],
    text="all setups of the generator (model, losses, optimizer x options, schedule, accumulation, clipping, batching); all score histories up to 9 epochs x schedule options x reloads; all param orders; all checkpoint sets and score tables",
    why="tests check that training runs, or single options at fixed values; errors in normalisation, accumulation boundaries, schedule and weight decay interplay change numbers which no test looks at",
    files=["returnn/torch/engine.py", "returnn/torch/updater.py", "returnn/learning_rate_control.py", "returnn/engine/base.py", "returnn/frontend/run_ctx.py", "returnn/util/basic.py"],
    mechanism=[
        ("train loop", "returnn/torch/engine.py:train_epoch, eval_model"),
        ("losses", "returnn/frontend/run_ctx.py:Loss, RunCtx.total_loss"),
        ("optimizer groups and state", "returnn/torch/updater.py:_get_optimizer_param_groups, load_optimizer"),
        ("schedules", "returnn/learning_rate_control.py"),
        ("cleanup", "returnn/engine/base.py:cleanup_old_models"),
    ],
    rule=(
        "train: the engine trains in a scratch directory and records its batches; a plain reference loop computes params and "
        "scores (float64). lr_control / optim_state / cleanup: generated histories against independent models. Non-trivial: "
        ">= 2 epochs, >= 3 scored epochs, changed param order, >= 3 checkpoints."
    ),
    assumptions=["single process, CPU, float64, no AMP, no gradient noise, no dropout", "torch.optim optimizers are right"],
    note="independent reference training loop and schedule models",
    technique="property-based testing: differential against a reference training loop; model-based histories for schedules",
    prebuild=NATIVE_PREBUILD,
)

spec(
    "C12",
    title="Forwarding delivers each sequence once, with exactly its own outputs",
    statement=(
        "For every dataset, batching, sorting option and set of model outputs (any axis order, any number of dynamic dims, dims "
        "with sizes per beam, sparse, bool and scalar outputs, declared as model_outputs or not), the forward task calls the "
        "callback once per sequence of the dataset, with the right seq tag, as numpy arrays without batch dim and without "
        "padding, with dims that carry the sizes of this sequence alone, and with exactly the values which the model gives for "
        "this sequence alone. The same when batches are split because of out-of-memory errors, for repeated forwards with the "
        "same engine, and for datasets with skipping of short/long sequences: then all the others exactly once."
    ),
    over=["inputs", "configurations", "histories"],
    text="all datasets up to 9 seqs, batch limits, orderings, output sets of the generator, OOM splits, repeated forwards",
    why="tests forward a single fixed output with a fixed batching; cutting and batch indexing errors show up only for unequal lengths in several dims, or after a split",
    files=["returnn/torch/engine.py", "returnn/frontend/run_ctx.py", "returnn/torch/data/extern_data.py", "returnn/torch/data/queued_data_iter.py", "returnn/forward_iface.py"],
    mechanism=[
        ("unpadding and callback", "returnn/torch/engine.py:forward_with_callback"),
        ("outputs", "returnn/frontend/run_ctx.py:mark_as_output"),
        ("splitting", "returnn/torch/data/extern_data.py:raw_dict_split_batch"),
    ],
    rule=(
        "real engine + dataset + rf model, recorded callback, numpy reference per sequence. Non-trivial: different seq lengths "
        "and batches of more than one seq."
    ),
    assumptions=["CPU; OOM is injected as torch.cuda.OutOfMemoryError raised by the forward step"],
    note="numpy reference on each sequence alone",
    technique="property-based testing: generated datasets/outputs/batchings, per-sequence reference, injected OOM faults",
    prebuild=NATIVE_PREBUILD,
)

spec(
    "C13",
    title="Losses, smoothing, augmentation and gradient tools do what they document",
    statement=(
        "For every batch of sequences (any lengths, axis order, beams, padding content): CTC and cross entropy losses, label "
        "smoothing, mel filterbank, element-wise functions and piecewise-linear schedules equal their mathematical definition "
        "on each sequence alone, and so do their gradients, with no gradient into padding. Gradient scaling, shifting, "
        "stopping and label-smoothed gradients change exactly the gradient, never the value. Dropout, weight noise, weight "
        "dropout and SpecAugment are inactive outside of training, and in training only do what their parameters allow "
        "(which values, which axes are shared, how many and how long the masks), reproducibly from the random seed/state. "
        "Gradient checkpointing never changes any value, gradient or the random state, whatever is computed inside and "
        "outside of (nested) scopes and whenever tensors are freed, and leaves no hooks behind."
    ),
    over=["inputs", "configurations", "programs", "histories"],
    text="all batches up to 4 seqs of up to 6 frames x all options; all programs of up to 14 tensor ops with checkpoint scopes, other hooks, deletions",
    why="tests compare single shapes mostly on random but unragged data; wrong masks, blank index handling, shared random masks or recomputation with a different random state only show up for certain lengths, options or programs",
    files=["returnn/frontend/loss.py", "returnn/frontend/label_smoothing.py", "returnn/frontend/gradient.py", "returnn/frontend/dropout.py", "returnn/frontend/audio/specaugment.py", "returnn/frontend/audio/mel.py", "returnn/frontend/parametrizations.py", "returnn/frontend/parametrize.py", "returnn/frontend/rand.py", "returnn/frontend/piecewise_linear.py", "returnn/frontend/math_.py", "returnn/torch/util/gradient_checkpoint.py", "returnn/torch/util/scaled_gradient.py", "returnn/torch/frontend/_backend.py"],
    mechanism=[
        ("CTC", "returnn/torch/frontend/_backend.py:ctc_loss"),
        ("gradient transformations", "returnn/torch/util/scaled_gradient.py"),
        ("gradient checkpointing", "returnn/torch/util/gradient_checkpoint.py:gradient_checkpoint_scope"),
        ("SpecAugment", "returnn/frontend/audio/specaugment.py"),
    ],
    rule=(
        "ragged batches with garbage padding; references in numpy (dynamic programming for CTC, finite differences for its "
        "gradient). Checkpointing: random programs run with and without the scopes. Non-trivial: different lengths in the "
        "batch / a checkpoint scope with something in it."
    ),
    assumptions=["torch backend on CPU; CTC with max_approx is not implemented there"],
    note="numpy definitions, differential for checkpointing",
    technique="property-based testing: reference definitions per sequence; random programs, differential with/without checkpointing",
    prebuild=NATIVE_PREBUILD,
)

spec(
    "C14",
    title="Tensor reordering, broadcasting and axis lookup keep every element in place",
    statement=(
        "A Tensor labels each axis by a Dim, and no operation on the container changes which label an element belongs to. For "
        "every tensor (any set and order of batch, dynamic, static, size-1 and duplicate match-priority dims, sparse or not, "
        "explicit or default time and feature axis, any memory layout) and every sequence of copy/move/swap/transpose/"
        "batch-, time- or feature-major/add dim/split/squeeze operations, the values at each label combination, dtype, sparse "
        "dim and the special axes stay right and the source tensor is untouched. copy_compatible_to (and _to_dims) match by dim, "
        "never by position or size, with size-1 or broadcast axes for missing dims; templates describe the same without content; "
        "arithmetic, comparison and logical operators on two tensors or tensor and number equal the broadcast-by-dim numpy "
        "result with the union of the dims; axis descriptions (B, T, F, spatial, dyn, static, tag names, dim:N, Dim objects) "
        "find exactly the matching axes."
    ),
    over=["inputs", "histories"],
    text="all tensors of up to 7 dims from {batch, ragged time, dynamic scalar, static x3, size-1}, sizes 1-6, torch and numpy backend; all sequences of up to 10 copy operations",
    why="the container logic has separate paths (native C++ fast paths, old-style axis rules, match priorities, broadcast dims) and only special orders or combinations reach each one; tests have single hand-picked shapes",
    files=["returnn/tensor/_tensor_extra.py", "returnn/tensor/tensor.py", "returnn/tensor/_tensor_op_overloads.py", "returnn/frontend/_utils.py", "returnn/frontend/_native/tensor_ops.cpp", "returnn/frontend/_numpy_backend.py", "returnn/frontend/math_.py"],
    mechanism=[
        ("copies and templates", "returnn/tensor/_tensor_extra.py:_TensorMixin"),
        ("operators, native", "returnn/frontend/_native/tensor_ops.cpp:compareOrCombine"),
        ("operators, generic", "returnn/frontend/_utils.py:bin_op_out_template"),
    ],
    rule=(
        "each tensor is modelled by its dims (by identity) and a numpy array with distinct values; every operation is applied to "
        "both. Non-trivial: more than one sequence in the batch, or more than two operations in the sequence."
    ),
    assumptions=["where the numpy backend says NotImplementedError, nothing is claimed", "old-style (version 1) tensors without explicit time/feature axis choose those by default rules, which are not modelled"],
    note="numpy model with dims by identity",
    technique="property-based testing: model-based operation sequences over labelled tensors against a numpy model",
    prebuild=NATIVE_PREBUILD,
)

spec(
    "C15",
    title="TF layer chains give each sequence its own result and describe it correctly",
    statement=(
        "In the TensorFlow graph backend, for every chain of layers (linear, conv, pool, reduce, softmax incl. over time, slice, "
        "pad, shift, window, cumsum, norms, repeat, resize, prefix/postfix, merge/split/expand/squeeze/transpose of dims, "
        "combine/compare/switch, concat/stack, dot, gather, top-k, cast, recurrent units ...) over padded batches of any lengths "
        "and layout (batch-major, time-major, feature before time): (1) the output tensor of every layer has, at run time, exactly "
        "the rank, dtype, static dims and dynamic sizes which its template announces; (2) on a single sequence it equals the "
        "mathematical definition of the layer; (3) in a batch with other sequences and arbitrary values in the padding, the valid "
        "frames and the sequence lengths are the same as for the sequence alone."
    ),
    over=["inputs"],
    text="all chains of up to 5 layers out of 40 kinds with their options; 1-3 sequences of length 1-5 (second input 1-4), feature dim 1-6, static dim 1-3",
    why="masking, axis lookup and size computation interact: an error shows only for certain axis orders, ragged lengths, padding values or preceding layers; the tests run single layers on one shape",
    files=["returnn/tf/layers/basic.py", "returnn/tf/layers/base.py", "returnn/tf/network.py", "returnn/tf/util/basic.py", "returnn/tensor/_tensor_extra.py", "returnn/tensor/_dim_extra.py", "returnn/tf/frontend_low_level/_backend.py"],
    mechanism=[
        ("layer definitions and templates", "returnn/tf/layers/basic.py:get_out_data_from_opts"),
        ("masking of dynamic axes", "returnn/tensor/_tensor_extra.py:copy_masked"),
        ("sizes", "returnn/tensor/_dim_extra.py:_DimMixin"),
    ],
    rule=(
        "random layer chains are constructed with TFNetwork; the graph is run on the padded batch with random padding and on each "
        "sequence alone; each layer is recomputed with numpy from the outputs of its sources. Non-trivial: sequences of different "
        "lengths in the batch."
    ),
    assumptions=[
        "layers documented to be unmasked (conv/pool/window with padding same without time mask, reversed cumsum, shifts which move padding in) are compared only on single sequences",
        "options which fail loudly at construction are not generated",
    ],
    note="numpy definition per layer, and batch versus single sequence",
    technique="property-based testing: random layer graphs, differential (batch vs single) and reference model in numpy",
)

spec(
    "C16",
    title="TF recurrent loops compute their step definition; beam search is exact",
    statement=(
        "In the TensorFlow graph backend, for every step network given to a RecLayer (layers which refer to each other, to "
        "'prev:' values with any initial output, to the previous or current label, to the step index, to per-step input, to "
        "layers outside of the loop, attention, nested subnetworks, recurrent cells): (1) with given labels, the output of each "
        "layer at each valid frame of each sequence equals running the step definition by hand on that sequence, whether or not "
        "layers are moved out of the loop; (2) with beam search, the returned hypotheses of each sequence are those of the "
        "textbook beam search (same order, no duplicates), the score of each is the (scaled, length-normalized) sum of the log "
        "probs of its labels, its length ends at its end-of-sequence label or the max length, and every layer output belongs to "
        "the history of its hypothesis; (3) deciding returns the hypothesis with the best score."
    ),
    over=["inputs", "histories"],
    text="all step networks of 1-5 layers out of 12 kinds; 1-3 sequences, 1-5 steps, vocabulary 2-5, beam 1-5, with/without end layer, include_eos, length normalization, prob scale, moving layers out of the loop on or off",
    why="which layers leave the loop, which beam a tensor belongs to and how ended hypotheses are carried along depends on the shape of the graph and on the data; tests have a few fixed networks and mostly compare losses",
    files=["returnn/tf/layers/rec.py", "returnn/tf/layers/base.py", "returnn/tf/network.py", "returnn/tf/util/basic.py", "returnn/tf/util/data.py"],
    mechanism=[
        ("loop and optimization", "returnn/tf/layers/rec.py:_SubnetworkRecCell"),
        ("beam search", "returnn/tf/layers/rec.py:ChoiceLayer"),
        ("beam selection", "returnn/tf/layers/base.py:SearchChoices"),
        ("decide", "returnn/tf/layers/rec.py:DecideLayer"),
    ],
    rule=(
        "a random step network is constructed as RecLayer and interpreted in numpy from the same parameters, step by step and "
        "hypothesis by hypothesis. Non-trivial: different lengths in the batch, or a beam larger than one."
    ),
    assumptions=[
        "cases in which two hypotheses have almost equal scores are only checked for score, history and length, not for the ranking",
        "search over input frames is only claimed for batches of equal lengths (see known_findings)",
    ],
    note="numpy interpreter of the step network and textbook beam search as reference",
    technique="property-based testing: random recurrent step networks against a reference interpreter (model-based)",
)

spec(
    "C17",
    title="File cache delivers the current source file, under any schedule and crash",
    statement=(
        "For all processes which share a FileCache directory, every interleaving of their file system operations, every crash of "
        "any of them, slow transfers, full disks and failing writes: get_file returns a file in the cache directory whose content is "
        "exactly the current content of the source (also when the source changed since it was cached, or a copy was interrupted); the "
        "file stays there, unchanged, until it is released, even if other processes clean up the cache under space pressure; "
        "get_file fails only if there is really no space, also after earlier attempts failed; crashed processes block the others "
        "only for the lock timeout; cleanup removes the oldest files first, only those which are too old or not in use while space "
        "is needed, and no more than needed; and CachedFile entries anywhere in a config become the cached copies."
    ),
    over=["schedules", "crash_points", "histories", "fault_sequences"],
    text="2-3 processes (plus a final one which needs all space) with up to 5 operations each (get, release, sleep, modify source, cleanup) on 1-3 files of 0-3 pages, pre-cached files of any age, disk of 3-10 pages or unlimited, up to 8 events (preemption, kill, slow transfer, ENOSPC) at any file system operation",
    why="the guarantee is about interleavings of lock files, mtimes, temp files and cleanups of several processes, and about crash points; the tests use a single process and no faults",
    files=["returnn/util/file_cache.py", "returnn/util/basic.py"],
    mechanism=[
        ("file cache", "returnn/util/file_cache.py:FileCache"),
        ("marking files as used", "returnn/util/file_cache.py:_TouchFilesThread"),
        ("lock", "returnn/util/basic.py:LockFile"),
    ],
    rule=(
        "the processes run as threads of a deterministic simulator which switches, kills, delays and injects faults exactly at the "
        "generated file system operations, in virtual time, on a real scratch directory; the invariants are checked at every "
        "operation. Non-trivial: at least one preemption, kill or delay."
    ),
    assumptions=[
        "no preemption between looking at the mtime of a file and the directly following removal of it",
        "mtimes and the clock agree, and stalls longer than the lock timeout only occur in transfers of data",
        "the source is not modified while get_file copies it",
    ],
    note="deterministic simulation of processes with generated schedules, crash points and disk faults; invariants over the history",
    technique="property-based testing: generated schedules, crashes and faults in a deterministic simulator, model of the source versions as oracle",
)
spec(
    "C18",
    title="Lock files and the compile cache are safe under concurrency and crashes",
    statement=(
        "For every interleaving and crash of processes: (1) of the processes which use a LockFile, at most one live process is in the "
        "critical section, each of the others gets the lock eventually (after the timeout if the owner crashed), and no lock is left "
        "behind without a crash, also if the critical section raised; (2) NativeCodeCompiler.get_lib_filename returns, in each process, a complete library which was "
        "compiled from exactly the given code, macros, flags and current dependencies, which is still there when the process loads it, "
        "whatever other processes compile, clean up or crash at the same time; compile errors are reported as such."
    ),
    over=["schedules", "crash_points", "histories"],
    text="2-4 processes with 1-3 operations each (same or different code, version, macros, flags, dependency changes, cleanups, also of caches unused for 61 days), up to 8 events (preemption, kill, slow compile) at any file system operation",
    why="races of check and use, incomplete files and leftovers of crashes show only in certain interleavings; the parallel test suite itself hits one of them now and then",
    files=["returnn/util/native_code_compiler.py", "returnn/util/basic.py"],
    mechanism=[
        ("compile cache", "returnn/util/native_code_compiler.py:NativeCodeCompiler"),
        ("lock", "returnn/util/basic.py:LockFile"),
    ],
    rule=(
        "as for the file cache, with a simulated compiler which writes the library in several steps. Non-trivial: at least one "
        "preemption, kill or delay."
    ),
    assumptions=[
        "no preemption between looking at the age of a lock file and the directly following removal of it, and within the cleanup of old directories in the constructor",
        "dependencies do not change while something is compiled; work in the critical section is shorter than the lock timeout",
    ],
    note="deterministic simulation of processes with generated schedules and crash points",
    technique="property-based testing: generated schedules and crashes in a deterministic simulator, invariants over the history",
)

spec(
    "C19",
    title="Text to labels: vocabularies, subword units and text corpora are exact",
    statement=(
        "For every vocabulary (words, characters, UTF-8 bytes; from a list, txt, gz, Python dict or pickle file) label and id are "
        "inverse of each other, get_seq(get_seq_labels(ids)) gives ids again, get_seq maps unknown units to the unknown label (or "
        "fails if there is none), and special symbols are those which were given. Standard BPE gives exactly the segmentation by "
        "the merge operations and the vocabulary, sampled BPE gives one of the possible segmentations (if there is any), reproducible "
        "by the seed, and the segments are again the text. Literal evaluation of Python literals is exact. The index of an allophone state is invertible. "
        "The text datasets (LmDataset, TranslationDataset, TranslationFactorsDataset, TextDictDataset) give, for every file format, "
        "line ending, vocabulary format, replacement and order, and independent of the history of epochs, for each "
        "line exactly the labels of this line, under the tag of this line, each line once per full epoch."
    ),
    over=["inputs", "configurations", "histories"],
    text="vocabularies of 1-260 labels with arbitrary characters, sentences of up to 6 units, up to 10 merge operations, nested literals, corpora of 1-3 files (txt, gz, Bliss XML) of up to 6 lines with empty, blank, CRLF and unterminated lines, parallel corpora with up to 2 factors, histories of up to 4 epochs, seq lists and seq orders",
    why="exactness for arbitrary text, formats and histories; the tests use a handful of well-formed files",
    files=[
        "returnn/datasets/util/vocabulary.py", "returnn/util/bpe.py", "returnn/datasets/lm.py", "returnn/datasets/text_dict.py",
        "returnn/util/literal_py_to_pickle.py", "returnn/util/py-to-pickle.cpp", "returnn/util/basic.py",
    ],
    mechanism=[
        ("vocabularies", "returnn/datasets/util/vocabulary.py:Vocabulary"),
        ("BPE", "returnn/util/bpe.py:StandardBytePairEncoder"),
        ("sampled BPE", "returnn/util/bpe.py:SamplingBytePairEncoder"),
        ("literals", "returnn/util/literal_py_to_pickle.py:literal_eval"),
        ("text corpora", "returnn/datasets/lm.py:LmDataset"),
        ("parallel corpora", "returnn/datasets/lm.py:TranslationDataset"),
        ("search outputs", "returnn/datasets/text_dict.py:TextDictDataset"),
        ("orthography", "returnn/util/basic.py:parse_orthography"),
    ],
    rule="the files are written from the generated content, which is the model; reference BPE, brute-force segmentation, ast.literal_eval. Non-trivial: more than one unit, merge, line or epoch.",
    assumptions=["labels contain no line breaks; in line-based vocabularies the first label does not start with {"],
    note="differential testing against references and round trips over generated text files and histories",
    technique="property-based testing: generated text, files and epoch histories against a reference model, round trips",
    prebuild="import returnn.util.literal_py_to_pickle as m; m.literal_eval('[1]')",
)

spec(
    "C20",
    title="Configuration: precedence, typed access, faithful transfer to processes",
    statement=(
        "For every history of config sources (Python, JSON with comments, line-based files, includes, command line options, explicit "
        "updates) each option has the value of the last source in the documented order of priority; an override of a typed option keeps to be a typed "
        "option and is seen by the functions of the config; every typed accessor (value, int, float, bool, list, int_list, "
        "float_list, int_pair, ...) gives the value in this type, the default if (and only if) the option is not set, or fails. "
        "A pickled config, in the same or another process, has all options, typed or not, and its functions, closures, classes, "
        "instances, arrays and dims behave as before, including default args, shared references, and references to other "
        "options; functions of the global config are pickled by reference. global_config_ctx sets the global config and recovers the previous one in all cases."
    ),
    over=["histories", "inputs", "programs"],
    text="histories of up to 5 sources with 6 options, all accessors, defaults and indices; generated config programs of up to 6 definitions of 16 kinds, transferred to another process and once more; nested contexts and TF graphs",
    why="the value of an option depends on the history of all sources, and the behaviour after pickling on the program; tests cover single examples",
    files=["returnn/config.py", "returnn/__main__.py", "returnn/util/task_system.py", "returnn/util/basic.py"],
    mechanism=[
        ("config", "returnn/config.py:Config"),
        ("priority of sources", "returnn/__main__.py:init_config"),
        ("transfer", "returnn/util/task_system.py:Pickler"),
        ("global config", "returnn/config.py:global_config_ctx"),
        ("JSON with comments", "returnn/util/basic.py:json_remove_comments"),
    ],
    rule="a model of the options in terms of two dicts; expressions evaluated before and after the transfer. Non-trivial: more than one source, definition or context.",
    assumptions=[
        "overrides of typed options which are valid Python but fail to evaluate are not defined",
        "staticmethod, classmethod and property in classes of the config cannot be pickled (fails loudly)",
    ],
    note="model-based testing over generated sources and config programs, round trip via another process",
    technique="property-based testing: generated histories of config sources against a model, round trip of generated programs",
)

NOT_APPLICABLE = []
