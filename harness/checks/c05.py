from vlib import run_check
import measures

if __name__ == "__main__":
    run_check("C05", "model_checking", lambda ck: measures.body(ck, False))
